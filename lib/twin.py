"""For a published type, the plain pyasn1 type of the same definition: same
tags, limits, components, names and defaults, without any code of the package."""
import types

from pyasn1.type import base, namedtype, opentype, univ

PLAIN = (types.FunctionType, property, classmethod, staticmethod, type)
STATE = ('tagSet', 'subtypeSpec', 'sizeSpec', 'componentType', 'namedValues', 'defaultValue', 'encoding')
memo = {}
keep = []
active = set()


def root(c):
    """the class of the codec library it derives from"""
    return next(b for b in c.__mro__ if (b.__module__ or '').startswith('pyasn1.'))


def named(nts):
    """component table"""
    if id(nts) in memo:
        return memo[id(nts)]
    if id(nts) in active:
        return nts
    active.add(id(nts))
    out = []
    for nt in nts.namedTypes:
        ot = nt.openType
        if ot:
            m = ot._OpenType__typeMap
            if type(ot) is not opentype.OpenType or type(m) is not dict:
                ot = opentype.OpenType(ot.name, m if type(m) is dict else dict(m))
        kw = {'openType': ot} if ot else {}
        out.append(root(type(nt))(nt.name, instance(nt.asn1Object), **kw))
    r = root(type(nts))(*out)
    active.discard(id(nts))
    memo[id(nts)] = r
    keep.append(nts)
    return r


def attr(name, v):
    if isinstance(v, namedtype.NamedTypes):
        return named(v)
    if isinstance(v, base.Asn1Item):
        return instance(v)
    return v


def cls(c):
    """the plain class"""
    if c in memo:
        return memo[c]
    r = root(c)
    if r is c or c in active:    # a definition that refers to itself
        return c
    active.add(c)
    attrs = {}
    for b in reversed(c.__mro__):
        if not (b.__module__ or '').startswith('pyasn1.') and b is not object:
            for k, v in vars(b).items():
                if isinstance(v, property) and k in STATE:
                    v = getattr(c(), k)
                if not (k.startswith('__') and k.endswith('__')) and not isinstance(v, PLAIN):
                    attrs[k] = attr(k, v)
    active.discard(c)
    memo[c] = type(c.__name__, (r,), attrs)
    return memo[c]


def instance(o):
    """the plain counterpart of a schema object or value, component by component"""
    if id(o) in memo:
        return memo[id(o)]
    if id(o) in active:
        return o
    t = cls(type(o))()
    active.add(id(o))
    ro = dict((k, attr(k, v)) for k, v in o._readOnly.items())
    t.__dict__.update(ro)
    t._readOnly = ro
    if isinstance(o, base.SimpleAsn1Type):
        t._value = o._value
    else:
        v = o._componentValues
        if isinstance(v, dict):
            v = dict((i, instance(x)) for i, x in v.items())
        elif isinstance(v, list):
            v = [x if x is univ.noValue else instance(x) for x in v]
        t._componentValues = v
        if '_currentIdx' in o.__dict__:
            t._currentIdx = o._currentIdx
        if '_componentTypeLen' in o.__dict__:
            t._componentTypeLen = o._componentTypeLen
            t._dynamicNames = t._componentTypeLen or t.DynamicNames()
    active.discard(id(o))
    memo[id(o)] = t
    keep.append(o)
    return t
