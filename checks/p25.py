"""Published types behave in every way as the plain types of their definitions."""
import copy
import operator
import re
import time

import harness  # noqa: F401
import mutate
import ref
import twin
from p18 import hostile
from ref import CONSTRUCTED
from work import (B, R, S, ber_decoder, ber_encoder, bridge, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects)
from pyasn1.codec.cer import encoder as cer_encoder
from pyasn1.codec.native import encoder as native_encoder
from pyasn1.type import base, constraint, namedtype, namedval, tag, univ

RULE = ('for each published type a twin is made from plain classes of the codec library, with the same tags, limits, '
        'components, names and defaults but none of the code of the package; random sequences of operations, sensible and '
        'not (calls of every public method with every kind of argument, operators, comparisons, conversions, slices, '
        'assignments, edits, copies, retagging, encoding, decoding of good, damaged and hostile octets), are run on both '
        'in step, and each result or error must be the same. One evaluation = one operation on both; distinct by '
        '(type, operation, outcome).')
# a new value of it is not empty, as its notation demands: it has the one content allowed
PRESET = ('rfc7191.siren_dn',)
MIN = 150000
ASSUMPTIONS = ['both sides have the definition of the tree under test: whether it is the standard\'s is decided by P01 to P07',
               'the one type whose new values have a fixed content, %s, is not judged' % PRESET, 'texts of errors, class identities and object addresses are not compared']


def err(e):
    """what kind of refusal: the library wraps its errors in others"""
    a = e.args[0] if e.args else None
    return 'error', type(e).__name__, type(a).__name__ if isinstance(a, Exception) else ''


def call(f, *a):
    try:
        return f(*a)
    except (RecursionError, MemoryError):
        raise
    except Exception as e:
        return err(e)


def norm(x, d=0):
    """a result, in a form that can be compared"""
    if isinstance(x, base.Asn1Item):
        if d > 6:
            return 'deep'
        t = call(lambda: x.prettyPrint() if x.isValue else None)
        return twin.root(type(x)).__name__, str(call(lambda: x.tagSet)), call(lambda: bool(x.isValue)), t
    if x is univ.noValue:
        return 'no value'
    if isinstance(x, dict):
        return 'dict', [(norm(a, d + 1), norm(b, d + 1)) for a, b in x.items()]
    if isinstance(x, (tuple, list)):
        return type(x).__name__ if type(x) in (tuple, list) else 'sequence', [norm(y, d + 1) for y in x]
    if isinstance(x, str):
        return re.sub(r' at 0x[0-9a-f]+', '', x)
    if x is None or isinstance(x, (int, float, bytes, complex)):
        return type(x).__name__, repr(x)
    if isinstance(x, (namedtype.NamedTypes, namedval.NamedValues)):
        return 'names', list(x)
    if isinstance(x, (tag.TagSet, tag.Tag)):
        return str(x)
    if hasattr(x, '__next__'):
        out = []
        for _ in range(200):
            try:
                out.append(norm(next(x), d + 1))
            except StopIteration:
                break
            except Exception as e:
                out.append(err(e))
                break
        return 'iterator', out
    return 'other', re.sub(r' at 0x[0-9a-f]+', '', type(x).__name__)


class Pair(object):
    """an object and its twin"""
    def __init__(self, a, b, nid=None):
        self.a, self.b, self.nid = a, b, nid


def side(x, i):
    """the argument as the object or as the twin gets it"""
    if isinstance(x, Pair):
        return x.b if i else x.a
    if isinstance(x, tuple) and any(isinstance(y, Pair) for y in x):
        return tuple(side(y, i) for y in x)
    if isinstance(x, list) and any(isinstance(y, Pair) for y in x):
        return [side(y, i) for y in x]
    return x


BINARY = [(n, getattr(operator, n)) for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'and_',
                                              'or_', 'xor', 'contains', 'getitem', 'concat')]
UNARY = [('repr', repr), ('str', str), ('bool', bool), ('len', len), ('iter', iter), ('hash', hash), ('abs', abs),
         ('neg', operator.neg), ('pos', operator.pos), ('invert', operator.invert), ('int', int), ('float', float), ('bytes', lambda o: bytes(o) if not isinstance(o, univ.Integer) or o < 1000 else b''),
         ('tuple', tuple), ('list', list), ('reversed', reversed), ('index', operator.index), ('round', round), ('sorted', lambda o: sorted(o, key=str)),
         ('isValue', lambda o: o.isValue), ('hasValue', lambda o: o.hasValue()), ('prettyPrint', lambda o: o.prettyPrint()),
         ('prettyPrint 2', lambda o: o.prettyPrint(2)), ('prettyPrintType', lambda o: o.prettyPrintType()),
         ('clone', lambda o: o.clone()), ('clone values', lambda o: o.clone(cloneValueFlag=True)), ('copy', copy.copy),
         ('tagSet', lambda o: o.tagSet), ('effectiveTagSet', lambda o: o.effectiveTagSet), ('der', lambda o: der_encoder.encode(o)),
         ('ber', lambda o: ber_encoder.encode(o)), ('cer', lambda o: cer_encoder.encode(o)),
         ('chunks', lambda o: ber_encoder.encode(o, defMode=False, maxChunkSize=3)), ('native', lambda o: native_encoder.encode(o)),
         ('isSame', lambda o: o.isSameTypeWith(o.__class__())), ('isSuper', lambda o: o.isSuperTypeOf(o.__class__())),
         ('getTagSet', lambda o: o.getTagSet()), ('getSubtypeSpec', lambda o: type(o.getSubtypeSpec()).__name__),
         ('limits', lambda o: str(o.subtypeSpec)), ('attributes', lambda o: sorted(k for k in o.readOnly)),
         ('context', lambda o: o.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 5))),
         ('boxed', lambda o: o.subtype(explicitTag=tag.Tag(tag.tagClassPrivate, tag.tagFormatConstructed, 50))),
         ('narrowed', lambda o: o.subtype(subtypeSpec=constraint.ConstraintsIntersection(constraint.ValueSizeConstraint(0, 3)))),
         ('untouchable', lambda o: setattr(o, 'tagSet', None)), ('same', lambda o: o == o), ('other', lambda o: o != o)]
SIMPLE = [('asNumbers', lambda o: tuple(o.asNumbers())), ('asOctets', lambda o: o.asOctets()), ('asInteger', lambda o: o.asInteger()),
          ('asBinary', lambda o: o.asBinary()), ('asTuple', lambda o: o.asTuple()), ('names', lambda o: o.namedValues),
          ('getNamedValues', lambda o: o.getNamedValues()), ('encoding', lambda o: o.encoding), ('datetime', lambda o: str(o.asDateTime)),
          ('deepcopy', copy.deepcopy), ('hex', hex), ('divmod', lambda o: divmod(o, 7)), ('pow', lambda o: pow(o, 2) if o < 1 << 200 else 0),
          ('shift', lambda o: (o << 3, o >> 2)), ('slice', lambda o: o[1:]), ('first', lambda o: o[0]), ('last', lambda o: o[-1]),
          ('backwards', lambda o: o[::-1]), ('twice', lambda o: o * 2), ('radd', lambda o: 1 + o), ('prettyOut', lambda o: o.prettyOut(o._value))]
STRUCT = [('keys', lambda o: list(o.keys())), ('values', lambda o: list(o.values())), ('items', lambda o: list(o.items())),
          ('components', lambda o: o.components), ('clear', lambda o: o.clear()), ('reset', lambda o: o.reset()),
          ('isInconsistent', lambda o: bool(o.isInconsistent)), ('getComponent', lambda o: o.getComponent()), ('getName', lambda o: o.getName()),
          ('getName inner', lambda o: o.getName(True)), ('inner', lambda o: o.getComponent(True)), ('defaults', lambda o: o.setDefaultComponents()),
          ('reverse', lambda o: o.reverse()), ('sort', lambda o: o.sort(key=str)), ('slice', lambda o: o[1:]), ('first', lambda o: o[0]),
          ('last', lambda o: o[-1]), ('length', lambda o: len(o.componentType)), ('names', lambda o: o.componentType),
          ('getComponentTagMap', lambda o: None if o.componentTagMap is None else 1), ('pop', lambda o: o.pop()), ('verify', lambda o: o.verifySizeSpec()),
          ('minTag', lambda o: o.getMinTagSet()), ('effective', lambda o: o.effectiveTagSet), ('getComponentType', lambda o: o.getComponentType())]


def junk(rng):
    return rng.choice([None, -1, 0, 1, 2, 3, 7, 100, 1 << 70, 1.5, True, '', 'x', 'a,b', '1.2.3', "'1011'B", "'A0'H", '20200101000000Z', 'x\u20ac',
                       b'', b'x', b'\xff\xfe', b'\x05\x00', [], [1, 0, 1], (1, 2, 3), (), {}, {'a': 1}, univ.Integer(5), univ.OctetString(b'x'), univ.Null('')])


class Driver(object):
    def __init__(self, rec, T, nid, rng, where):
        self.rec, self.T, self.nid, self.rng, self.where = rec, T, nid, rng, where
        self.U = twin.cls(T)
        self.g = ref.Gen(S, rng)
        self.n = S.nodes[nid]
        self.pool = []
        self.log = []

    # ---- arguments
    def plain(self, nid):
        n = S.nodes[nid]
        if n['k'] in CONSTRUCTED:
            return junk(self.rng)
        v = self.g.random(nid, 6)
        r = self.rng.random()
        if r < 0.2:
            v = self.g.near(nid, v)
        try:
            return B.leafval(n, v) if r < 0.85 else v
        except Exception:
            return junk(self.rng)

    def made(self, nid, a, b):
        """a value for a component of schema a / b"""
        try:
            v = self.g.random(nid, 8)
            return Pair(B.build(a.clone(), nid, v), B.build(b.clone(), nid, v))
        except Exception:
            return junk(self.rng)

    def any(self):
        if self.pool and self.rng.random() < 0.4:
            return self.rng.choice(self.pool)
        if self.n['k'] not in CONSTRUCTED and self.rng.random() < 0.6:
            return self.plain(self.nid)
        return junk(self.rng)

    def octets(self):
        rng = self.rng
        d = R.der(self.nid, self.g.random(self.nid, rng.choice([4, 15])))
        if len(d) > 3000:
            return b''
        r = rng.random()
        if r < 0.4:
            return d + rng.choice([b'', b'', b'\x00', b'\x05\x00'])
        if r < 0.8 and d:
            return next((x for _, x in mutate.mutants(d, rng, 1)), d)
        if r < 0.9:
            return d[:rng.randrange(len(d) + 1)]
        x = hostile(rng, d[:1] or b'\x30')
        return x if len(x) < 400 else d[:-1]

    # ---- operations: (name, function of one side's object and arguments, arguments)
    def pick(self, p):
        rng, a = self.rng, p.a
        cons = isinstance(a, base.ConstructedAsn1Type)
        r = rng.random()
        if r < 0.3:
            n, f = rng.choice(UNARY)
            return n, f, ()
        if r < 0.45:
            n, f = rng.choice(STRUCT if cons else SIMPLE)
            return n, f, ()
        if r < 0.57:
            n, f = rng.choice(BINARY)
            x = self.any()
            if n == 'mul' and not (isinstance(x, int) and abs(x) < 50):
                x = 2
            if rng.random() < 0.15 and not isinstance(x, Pair):
                return n + ' reversed', lambda o, y: f(y, o) if n not in ('mul', 'contains', 'getitem') else 0, (x,)
            return n, f, (x,)
        if r < 0.63:
            return 'decode', lambda o, d: der_decoder.decode(d, asn1Spec=o), (self.octets(),)
        if r < 0.67:
            return 'ber decode', lambda o, d: ber_decoder.decode(d, asn1Spec=o), (self.octets(),)
        if r < 0.70:
            return 'open decode', lambda o, d: (lambda x: (x[0].prettyPrint(), bytes(x[1])))(der_decoder.decode(d, asn1Spec=o, decodeOpenTypes=True)), (self.octets(),)
        if not cons:
            x = self.any()
            n, f = rng.choice([('clone', lambda o, x: o.clone(x)), ('subtype', lambda o, x: o.subtype(x)), ('call', lambda o, x: o.__class__(x)),
                               ('prefix', lambda o, x: o.isPrefixOf(x)), ('index', lambda o, x: o.index(x)), ('count', lambda o, x: o.count(x)),
                               ('prettyIn', lambda o, x: o.prettyIn(x)), ('isSame', lambda o, x: o.isSameTypeWith(x)), ('isSuper', lambda o, x: o.isSuperTypeOf(x)),
                               ('text', lambda o, x: o.clone(x).prettyPrint()), ('octets', lambda o, x: der_encoder.encode(o.clone(x)))])
            return n, f, (x,)
        if isinstance(a, (univ.SequenceOf, univ.SetOf)):
            i = rng.choice([0, 1, 2, len(a) if a.isValue else 0, -1, 400])
            x = self.any()
            if self.n['k'] in ('seqof', 'setof') and rng.random() < 0.7 and p.nid == self.nid:
                e = self.n['e']
                x = self.made(e, self.T.componentType, self.U.componentType) if S.nodes[e]['k'] in CONSTRUCTED or rng.random() < 0.3 else self.plain(e)
            if rng.random() < 0.1:
                x = [x, x]
            return self.listop(i, x)
        # structures and choices
        names = [t.name for t in a.componentType.namedTypes] if len(a.componentType) else ['x']
        name = rng.choice(names + ['no-such'] if rng.random() < 0.1 else names)
        pos = names.index(name) if name in names else rng.choice([-1, 0, 400])
        x = self.any()
        if p.nid == self.nid and self.n['k'] in ('seq', 'set', 'choice') and rng.random() < 0.75:
            f = next((f for f in self.n['f'] if f['n'] == name), None)
            if f and name in names:
                if S.nodes[f['t']]['k'] in CONSTRUCTED or rng.random() < 0.3:
                    x = self.made(f['t'], a.componentType[pos].asn1Object, p.b.componentType[pos].asn1Object)
                else:
                    x = self.plain(f['t'])
        n, f = rng.choice([
            ('set', lambda o, x: o.__setitem__(name, x)), ('set', lambda o, x: o.__setitem__(name, x)), ('set number', lambda o, x: o.__setitem__(pos, x)),
            ('setByName', lambda o, x: o.setComponentByName(name, x)), ('setByPosition', lambda o, x: o.setComponentByPosition(pos, x)),
            ('set unverified', lambda o, x: o.setComponentByPosition(pos, x, False, False, False)),
            ('set nothing', lambda o, x: o.setComponentByPosition(pos)), ('set nothing', lambda o, x: o.setComponentByName(name)),
            ('setByType', lambda o, x: o.setComponentByType(o.componentType[pos].asn1Object.tagSet, x)),
            ('getByType', lambda o, x: o.getComponentByType(o.componentType[pos].asn1Object.tagSet)),
            ('update', lambda o, x: o.update(**{name: x})), ('update pairs', lambda o, x: o.update((name, x))),
            ('in', lambda o, x: name in o), ('key', lambda o, x: o[name]), ('number', lambda o, x: o[pos]),
            ('getByName', lambda o, x: o.getComponentByName(name)), ('getByPosition', lambda o, x: o.getComponentByPosition(pos)),
            ('peek', lambda o, x: o.getComponentByName(name, default=None, instantiate=False)),
            ('nameAt', lambda o, x: o.getNameByPosition(pos)), ('type of', lambda o, x: o.componentType[pos].asn1Object),
            ('near', lambda o, x: o.getComponentPositionNearType(o.componentType[pos].asn1Object.tagSet, pos)),
            ('isSame', lambda o, x: o.isSameTypeWith(x)), ('isSuper', lambda o, x: o.isSuperTypeOf(x)), ('del', lambda o, x: o.__delitem__(name)),
            ('get', lambda o, x: o.get(name))])
        return n + ' ' + name, f, (x,)

    def listop(self, i, x):
        return self.rng.choice([
            ('append', lambda o, x: o.append(x), (x,)), ('append', lambda o, x: o.append(x), (x,)), ('extend', lambda o, x: o.extend(x), (x if isinstance(x, list) else [x, x],)),
            ('set', lambda o, x: o.__setitem__(i, x), (x,)), ('set', lambda o, x: o.__setitem__(i, x), (x,)),
            ('setByPosition', lambda o, x: o.setComponentByPosition(i, x), (x,)), ('set nothing', lambda o, x: o.setComponentByPosition(i), (x,)),
            ('set slice', lambda o, x: o.__setitem__(slice(0, 1), x), (x if isinstance(x, list) else [x],)),
            ('getByPosition', lambda o, x: o.getComponentByPosition(i), (x,)), ('peek', lambda o, x: o.getComponentByPosition(i, default=None, instantiate=False), (x,)),
            ('item', lambda o, x: o[i], (x,)), ('count', lambda o, x: o.count(x), (x,)), ('index', lambda o, x: o.index(x), (x,)),
            ('in', lambda o, x: x in o, (x,)), ('setAll', lambda o, x: o.setComponents(x, x), (x,)), ('isSame', lambda o, x: o.isSameTypeWith(x), (x,)),
            ('del', lambda o, x: o.__delitem__(i), (x,)), ('insert', lambda o, x: o.insert(0, x), (x,))])

    # ---- one step on both sides
    def start(self):
        self.log = ['new']
        self.pool = []
        r = self.rng.random()
        try:
            a, b = self.T(), self.U()
            if r < 0.35:
                v = self.g.random(self.nid, self.rng.choice([4, 12, 30, 60]))
                a, b = B.build(a, self.nid, v), B.build(b, self.nid, v)
                self.log = ['built from ' + rep(v, 300)]
            elif r < 0.7:
                d = R.der(self.nid, self.g.random(self.nid, self.rng.choice([4, 12, 30, 60])))
                if len(d) < 4000:
                    a, b = (der_decoder.decode(d, asn1Spec=x)[0] for x in (a, b))
                    self.log = ['read from ' + d.hex()[:600]]
        except Exception as e:
            self.rec.count('no start')
            a, b = self.T(), self.U()
        self.pool = [Pair(a, b, self.nid), Pair(self.T(), self.U(), self.nid)]

    def step(self):
        p = self.rng.choice(self.pool[:3]) if self.rng.random() < 0.7 else self.rng.choice(self.pool)
        try:
            name, f, args = self.pick(p)
        except Exception:    # an object put out of order by an earlier step
            self.rec.count('out of order')
            return
        self.log.append('%s(%s)' % (name, ', '.join('value' if isinstance(x, Pair) else str(call(rep, x, 60)) for x in args)))
        out = []
        for i, o in ((0, p.a), (1, p.b)):
            try:
                out.append(f(o, *[side(x, i) for x in args]))
            except (RecursionError, MemoryError):
                raise
            except Exception as e:
                out.append(err(e))
        a, b = out
        na, nb = norm(a), norm(b)
        if name in ('hash',) and isinstance(a, int) and p.a.__class__.__hash__ is object.__hash__:
            return
        key = re.sub(r' .*', '', name)
        self.rec.see((self.nid, name, repr(na)[:300]), **{'refused' if na[:1] == ('error',) else 'done': 1, key: 1})
        if na != nb:
            return name, na, nb
        if name.startswith(('type of', 'getComponentType')):    # part of the definition: not to be tampered with
            return
        for x, y in zip(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else [(a, b)]:
            if isinstance(x, base.Asn1Item) and isinstance(y, base.Asn1Item) and x is not p.a and len(self.pool) < 12:
                same = twin.root(type(x)) is twin.root(type(p.a)) and name.split(' ')[0] in ('clone', 'decode', 'ber', 'copy')
                self.pool.append(Pair(x, y, p.nid if same else None))

    def final(self):
        """what has become of all of them"""
        for p in self.pool:
            for n, f in (('prettyPrint', lambda o: o.prettyPrint()), ('der', lambda o: der_encoder.encode(o))):
                a, b = norm(call(f, p.a)), norm(call(f, p.b))
                if a != b:
                    return 'afterwards ' + n, a, b


def job(rec, item, rng):
    (m, k, nid), rounds, steps = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    if not isinstance(T, type) or where in PRESET:
        return
    try:
        d = Driver(rec, T, nid, rng, where)
    except RecursionError:
        rec.count('no twin: refers to itself')
        return
    t = time.process_time()
    for i in range(rounds):
        if time.process_time() - t > 20:
            rec.count('rounds left', rounds - i)
            break
        d.start()
        try:
            for _ in range(steps):
                r = d.step()
                if r:
                    break
            else:
                r = d.final()
        except (RecursionError, MemoryError):
            rec.count('too deep')
            continue
        if r:
            rec.bad('differs:%s:%s' % (re.sub(r' .*', '', r[0]), where), '%s: %s gives %s, a plain type of the same definition %s' % (
                where, r[0], short(r[1], 200) if isinstance(r[1], Exception) else rep(r[1], 200), rep(r[2], 200)), history=d.log[-40:])
        if i == 0:
            rec.sample(type=where, operations='; '.join(d.log)[:400])


def run(ck):
    from p05 import everything
    everything()
    subs = spread(subjects(ck.rec), ck.seed)
    own, top = hot(subs), hot(subs, 0)
    ck.map(job, [(s, 6, 30) for s in subs] + [(s, dose(own, 60, 8), 40) for s in own] + [(s, dose(top, 400, 30, 6), 40) for s in top])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 60:
        ck.map(job, [(s, 12, 50) for s in subs], 'r%d' % r, budget=400)
        r += 1
