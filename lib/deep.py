"""Deep snapshot of everything the modules publish: two snapshots are equal
exactly when no published definition, template, constant or registry has
changed in between."""
import hashlib
import sys
import types

from bridge import univ
from pyasn1.type.opentype import OpenType

# caches the interpreter or the codec library adds on use
LAZY = ('__dict__', '__weakref__', '__doc__', '__slotnames__', '__annotations__', '__static_attributes__', '__firstlineno__', '_tagMap')
VOLATILE = LAZY + ('_componentValues',)
PRIM = (int, float, str, bytes, bool, type(None), complex, frozenset)
SKIP = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.GetSetDescriptorType,
        types.MemberDescriptorType, property, staticmethod, classmethod, type(len))


RECORD = (univ.Sequence, univ.Set)


class Snap(object):
    def __init__(self, light=False):
        self.light = light      # registries and classes by identity only
        self.memo = {}
        self.keep = []
        self.n = 0

    def h(self, s):
        return hashlib.blake2b(s.encode('utf-8', 'backslashreplace'), digest_size=10).hexdigest()

    def fp(self, o):
        if isinstance(o, PRIM) and type(o) in PRIM:
            return repr(o)
        if isinstance(o, SKIP):
            return '%s@%d' % (type(o).__name__, id(o))
        if self.light and isinstance(o, (type, OpenType)):
            return '@%d' % id(o)
        i = id(o)
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = 'loop'
        self.keep.append(o)
        self.n += 1
        if isinstance(o, (list, tuple)):
            s = '%s[%s]' % (type(o).__name__, ','.join([self.fp(x) for x in o]))
        elif isinstance(o, dict):
            s = 'dict{%s}' % ','.join(['%s:%s' % (self.fp(a), self.fp(b)) for a, b in o.items()])
        elif isinstance(o, set):
            s = 'set{%s}' % ','.join(sorted([self.fp(x) for x in o]))
        elif isinstance(o, type):
            if o.__module__.startswith('pyasn1_modules'):
                s = 'class %s@%d(%s){%s}' % (o.__qualname__, i, ','.join(str(id(b)) for b in o.__bases__), ','.join(
                    ['%s:%s' % (a, self.fp(b)) for a, b in sorted(vars(o).items()) if a not in LAZY]))
            else:
                s = 'class@%d' % i
        else:
            d = getattr(o, '__dict__', None)
            if d is None:
                s = '%s@%d' % (type(o).__name__, i)
            elif '_componentValues' in d:
                s = '%s{%s}=%s' % (type(o).__name__, ','.join(
                    ['%s:%s' % (a, self.fp(b)) for a, b in sorted(d.items()) if a not in VOLATILE]), self.content(o))
            else:
                s = '%s{%s}' % (type(o).__name__, ','.join(['%s:%s' % (a, self.fp(b)) for a, b in sorted(d.items()) if a not in LAZY]))
        r = self.memo[i] = self.h(s)
        return r

    def content(self, o):
        """what a constructed object holds; a component that is only looked
        at is created empty by the library, which does not change it"""
        cv = o._componentValues
        if not isinstance(cv, (list, dict)) or not cv:
            return '-'
        nt = o.componentType.namedTypes if isinstance(o, RECORD) and o.componentType else ()
        out = []
        for k, x in (cv.items() if isinstance(cv, dict) else enumerate(cv)):
            if x is not univ.noValue and '_componentValues' in x.__dict__:
                empty = self.content(x) == '-'
            else:
                empty = x is univ.noValue or not x.isValue
            if k < len(nt):
                if empty and not nt[k].isDefaulted:
                    out.append('-')
                elif nt[k].isDefaulted and (empty or x == nt[k].asn1Object):
                    out.append('-')
                else:
                    out.append(self.fp(x))
            else:
                out.append('%s=%s' % (k, self.fp(x)))
        while nt and out and out[-1] == '-':
            out.pop()
        if not out:
            return '-'
        return '[%s]' % ','.join(out)


def snapshot():
    """(module, name) -> fingerprint; identity of the objects included"""
    s = Snap()
    out = {}
    for name in sorted(sys.modules):
        if name.startswith('pyasn1_modules.'):
            m = sys.modules[name]
            for k, v in sorted(vars(m).items()):
                if k in ('__builtins__', '__cached__', '__loader__', '__spec__', '__file__'):
                    continue
                out[name[15:], k] = (s.fp(v), id(v))
    return out, s.n


def changed(a, b):
    return sorted(set(k for k in set(a) | set(b) if a.get(k) != b.get(k)))
