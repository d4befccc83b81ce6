"""Drives the real classes: builds pyasn1 values from abstract values through
the public field names, and compares decoded pyasn1 values with abstract ones.
"""
import importlib
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from ref import CONSTRUCTED, TEXT, Open  # noqa: E402

from pyasn1 import error  # noqa: E402
from pyasn1.codec.ber import decoder as ber_decoder  # noqa: E402
from pyasn1.codec.ber import encoder as ber_encoder  # noqa: E402
from pyasn1.codec.cer import decoder as cer_decoder  # noqa: E402
from pyasn1.codec.cer import encoder as cer_encoder  # noqa: E402
from pyasn1.codec.der import decoder as der_decoder  # noqa: E402
from pyasn1.codec.der import encoder as der_encoder  # noqa: E402
from pyasn1.type import base, tag, univ  # noqa: E402,F401

PyAsn1Error = error.PyAsn1Error


def turned_down(e):
    """pyasn1 said no to a part, as itself or as a key or index error"""
    return isinstance(e, PyAsn1Error) or isinstance(e.__context__, PyAsn1Error)


def where():
    import pyasn1_modules
    p = os.path.realpath(os.path.dirname(pyasn1_modules.__file__))
    want = os.path.realpath(os.path.join(REPO, 'pyasn1_modules'))
    if p != want:
        raise SystemExit('pyasn1_modules comes from %s, not %s' % (p, want))


def module(name):
    return importlib.import_module('pyasn1_modules.' + name)


def short(e, n=220):
    s = str(e)
    if len(s) > n:
        s = s[:n // 2] + ' ... ' + s[-n // 2:]
    return '%s: %s' % (type(e).__name__, s)


def pyleaf(k, v):
    """what a user assigns for this value"""
    if k == 'null':
        return ''
    if k == 'bits':
        return "'%s'B" % v
    if k == 'oid':
        return '.'.join(str(x) for x in v)
    return v


class Unordered(Exception):
    """a decoded SET OF whose members the codec cannot write"""


def wirekey(x):
    try:
        return der_encoder.encode(x)
    except Exception:
        raise Unordered


class Bridge(object):
    def __init__(self, spec, ref):
        self.spec = spec
        self.ref = ref

    # -------------------------------------------------------------- build
    def build(self, obj, nid, v, order=None, ways=None):
        """obj: a fresh schema instance of the type; returns the value object"""
        n = self.spec.nodes[nid]
        k = n['k']
        if k not in CONSTRUCTED:
            return obj.clone(self.leafval(n, v))
        if ways:
            self.assemble(obj, n, v, ways)
        else:
            self.fill(obj, n, v, order)
        return obj

    def assemble(self, obj, n, v, rng):
        """like fill, by all the ways there are to put a value together"""
        k = n['k']
        if k in ('seqof', 'setof'):
            en = self.spec.nodes[n['e']] if n['e'] else None
            obj.clear()
            xs = []
            for x in v:
                if en['k'] in CONSTRUCTED:
                    c = obj.componentType.clone()
                    self.assemble(c, en, x, rng)
                    xs.append(c)
                else:
                    xs.append(self.leafval(en, x))
            way = rng.choice(['append', 'extend', 'item', 'position', 'all', 'typed', 'in place'])
            if way != 'in place':
                try:
                    return self.members(obj, en, xs, way)
                except Exception as e:
                    if not xs or en['k'] not in CONSTRUCTED or not turned_down(e):
                        raise
            return self.fill(obj, n, v)
        self.parts(obj, n, v, rng)

    def members(self, obj, en, xs, way):
        if way == 'extend':
            obj.extend(xs)
        elif way == 'all':
            obj.setComponents(*xs)
        for i, x in enumerate(xs):
            if way == 'append':
                obj.append(x)
            elif way == 'item':
                obj[i] = x
            elif way == 'position':
                obj.setComponentByPosition(i, x)
            elif way == 'typed':
                obj.append(x if en['k'] in CONSTRUCTED else obj.componentType.clone(x))

    def parts(self, obj, n, v, rng):
        k = n['k']
        if k == 'choice':
            items = [v]
        else:
            items = [(f['n'], v[f['n']]) for f in n['f'] if f['n'] in v]
            rng.shuffle(items)
            if not items:
                obj.clear()
                return
        for name, x in items:
            fn = self.spec.nodes[self.ref.field(n, name)['t']]
            pos = obj.componentType.getPositionByName(name)
            t = obj.componentType.getTypeByPosition(pos)
            if fn['k'] in CONSTRUCTED:
                c = t.clone()
                self.assemble(c, fn, x, rng)
                try:
                    self.put(obj, k, name, pos, c, rng)
                except Exception as e:
                    if not turned_down(e):
                        raise
                    # whether parts made elsewhere are taken is another property
                    c = t.clone()
                    self.fill(c if self.ref.field(n, name)['q'] == 'd' else obj[name], fn, x)
                    if self.ref.field(n, name)['q'] == 'd':
                        obj[name] = c
            else:
                c = self.leafval(fn, x)
                if fn['k'] != 'any' and rng.random() < 0.3:
                    c = t.clone(c)
                self.put(obj, k, name, pos, c, rng)

    def put(self, obj, k, name, pos, c, rng):
        way = rng.randrange(5)
        if way == 0:
            obj[name] = c
        elif way == 1:
            obj.setComponentByName(name, c)
        elif way == 2:
            obj.setComponentByPosition(pos, c)
        elif way == 3:
            obj[pos] = c
        elif k == 'choice':
            obj[name] = c
        else:
            obj.update((name, c))

    def leafval(self, n, v):
        if isinstance(v, Open):
            v = self.ref.der(v.nid, v.val)
        return pyleaf(n['k'], v)

    def fill(self, obj, n, v, order=None):
        k = n['k']
        if k == 'choice':
            items = [v]
        elif k in ('seq', 'set'):
            items = [(f['n'], v[f['n']]) for f in n['f'] if f['n'] in v]
            if order:
                order.shuffle(items)
            if not items:
                obj.clear()
                return
        else:
            en = self.spec.nodes[n['e']] if n['e'] else None
            obj.clear()
            for i, x in enumerate(v):
                if en['k'] in CONSTRUCTED:
                    self.fill(obj[i], en, x, order)
                else:
                    obj[i] = self.leafval(en, x)
            return
        for name, x in items:
            f = self.ref.field(n, name)
            fn = self.spec.nodes[f['t']]
            if fn['k'] in CONSTRUCTED and f['q'] == 'd':
                # obj[name] would start from the default's content
                c = obj.componentType.getTypeByPosition(obj.componentType.getPositionByName(name)).clone()
                self.fill(c, fn, x, order)
                obj[name] = c
            elif fn['k'] in CONSTRUCTED:
                self.fill(obj[name], fn, x, order)
            else:
                obj[name] = self.leafval(fn, x)

    # ------------------------------------------------------------ compare
    def diff(self, obj, nid, v, path='', opened=False, loose=False):
        try:
            return self._diff(obj, nid, v, path, opened, loose)
        except Unordered:
            return None
        except Exception as e:
            return '%s: cannot be read: %s' % (path, short(e))

    def _diff(self, obj, nid, v, path='', opened=False, loose=False):
        """first difference between a decoded object and the expected value,
        as text, or None.  With opened=True fields holding Open values must
        have been resolved to typed objects; otherwise they must be octets.
        loose: members of a SET OF may be in any order on the wire."""
        n = self.spec.nodes[nid]
        k = n['k']
        if isinstance(v, Open):
            if opened:
                inner = self._diff(obj, v.nid, v.val, path + '<open>', opened, loose)
                if inner is None:
                    return self.kindcheck(obj, v.nid, path)
                return inner
            v = self.ref.der(v.nid, v.val)
        if obj is None:
            return '%s: absent' % path
        if k not in CONSTRUCTED:
            if not obj.isValue:
                return '%s: no value' % path
            got = self.leaf(k, obj)
            if type(got) != type(v) and not (k in ('int', 'enum', 'bool')):
                return '%s: %r read as %r' % (path, v, got)
            if got != v:
                return '%s: %s read as %s' % (path, rep(v), rep(got))
            return None
        if k == 'choice':
            got = obj.getName()
            if got != v[0]:
                return '%s: alternative %s read as %s' % (path, v[0], got)
            return self._diff(obj.getComponent(), self.ref.field(n, v[0])['t'], v[1], path + '.' + v[0], opened, loose)
        if k in ('seqof', 'setof'):
            if len(obj) != len(v):
                return '%s: %d elements read as %d' % (path, len(v), len(obj))
            items = list(range(len(v)))
            if k == 'setof':
                # order is not information in a SET OF; compare in DER order
                keyed = sorted(items, key=lambda i: self.setkey(n, v[i]))
                v = [v[i] for i in keyed]
                if loose:
                    obj = [obj[i] for i in items]
                    obj.sort(key=wirekey)
            for i in items:
                d = self._diff(obj[i], n['e'], v[i], '%s[%d]' % (path, i), opened, loose)
                if d:
                    return d
            return None
        for i, f in enumerate(n['f']):
            c = obj.getComponentByName(f['n'], default=None, instantiate=False)
            there = c is not None and c.isValue
            if f['n'] in v and not (f['q'] == 'd' and self.ref.norm(f['t'], v[f['n']]) ==
                                    self.ref.norm(f['t'], self.ref.default(f))):
                d = self._diff(c, f['t'], v[f['n']], path + '.' + f['n'], opened, loose)
                if d:
                    return d
            elif f['q'] == 'd':
                d = self._diff(obj[f['n']], f['t'], self.ref.default(f), path + '.' + f['n'] + '(default)', opened, loose)
                if d:
                    return d
            elif there:
                return '%s.%s: absent field read as present' % (path, f['n'])
        return None

    def setkey(self, n, x):
        return self.ref.der(n['e'], x)

    def kindcheck(self, obj, nid, path):
        k = self.spec.nodes[nid]['k']
        if k != 'any' and isinstance(obj, univ.Any):
            return '%s: open type left as raw octets' % path
        return None

    def leaf(self, k, obj):
        if k in ('int', 'enum'):
            return int(obj)
        if k == 'bool':
            return bool(obj)
        if k == 'bits':
            return ''.join(str(int(b)) for b in obj)
        if k == 'null':
            return None
        if k == 'oid':
            return tuple(obj)
        if k == 'any' and not isinstance(obj, univ.Any):
            return der_encoder.encode(obj)
        if k in ('octets', 'any'):
            return bytes(obj)
        return str(obj)


def rep(v, n=100):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'
