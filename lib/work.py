"""The workload common to the codec checks: which published types there are
on the tree, and which values are driven through them."""
import random
import types

from pyasn1.type import namedtype

import bridge
import ref
from bridge import (PyAsn1Error, ber_decoder, ber_encoder, cer_decoder, cer_encoder, der_decoder,  # noqa: F401
                    der_encoder, module, rep, short)

S = ref.Spec()
R = ref.Ref(S)
B = bridge.Bridge(S, R)

# the standard itself leaves this type undecodable: subject and subjectAlt are
# both OPTIONAL and both start with SEQUENCE (RFC 6402, 3.2.1.?)
AMBIGUOUS = {('rfc6402', 'ChangeSubjectName')}


def resolve(rec, m, k):
    """the class or object a module publishes under a name"""
    try:
        return getattr(module(m), k)
    except AttributeError:
        rec.bad('missing:%s.%s' % (m, k), '%s does not publish %s' % (m, k), module=m, name=k)
    except Exception as e:
        rec.bad('import:%s' % m, 'importing %s: %s' % (m, short(e)), module=m)
    return None


def subjects(rec):
    """every distinct published type, as (module, name, node)"""
    out, seen = [], set()
    ref.MINED[:] = mine()
    for m, k, nid in S.types():
        T = resolve(rec, m, k)
        if T is None or (id(T), nid) in seen:
            continue
        seen.add((id(T), nid))
        out.append((m, k, nid))
    return out


def mine():
    """numbers and texts in functions of the package's classes, a dictionary
    for the generators"""
    out = set()

    def walk(code):
        for x in code.co_consts:
            if isinstance(x, types.CodeType):
                walk(x)
            elif isinstance(x, (tuple, frozenset)):
                out.update(y for y in x if isinstance(y, (int, str, bytes)) and not isinstance(y, bool))
            elif isinstance(x, (int, str, bytes)) and not isinstance(x, bool):
                out.add(x)
        # the documentation is no value
        if code.co_consts and isinstance(code.co_consts[0], str) and len(code.co_consts[0]) > 20:
            out.discard(code.co_consts[0])

    def functions(o):
        for v in list(vars(o).values()):
            if isinstance(v, property):
                v = [v.fget, v.fset]
            elif isinstance(v, (staticmethod, classmethod)):
                v = [v.__func__]
            else:
                v = [v]
            for f in v:
                f = getattr(f, '__wrapped__', f)
                if isinstance(f, types.FunctionType) and (f.__module__ or '').startswith('pyasn1_modules'):
                    yield f
    for name in S.modules:
        try:
            m = module(name)
        except Exception:
            continue
        for f in functions(m):
            walk(f.__code__)
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                for f in functions(v):
                    walk(f.__code__)
    return sorted((x for x in out if not isinstance(x, (str, bytes)) or 0 < len(x) < 200), key=repr)


def spread(items, seed):
    """same items in an order that balances the workers"""
    items = list(items)
    random.Random(seed).shuffle(items)
    return items


def swell(nid, v, rng):
    """the same value with long leaves"""
    n = S.nodes[nid]
    k = n['k']
    if isinstance(v, ref.Open):
        return v
    if k == 'choice':
        return v[0], swell(R.field(n, v[0])['t'], v[1], rng)
    if k in ('seq', 'set'):
        return dict((f['n'], swell(f['t'], v[f['n']], rng)) for f in n['f'] if f['n'] in v)
    if k in ('seqof', 'setof'):
        v = [swell(n['e'], x, rng) for x in v]
        return v * 12 if v and len(v) < 3 and rng.random() < 0.2 and ref.ok(n.get('c'), k, v * 12) else v
    size = rng.choice([70, 150, 300, 700, 1500])
    if k == 'octets':
        w = bytes(rng.getrandbits(8) for _ in range(size)) if rng.random() < 0.5 else b'abcdefgh' * (size // 8) + b'END'
    elif k == 'any':
        b = b'q' * size + b'END'
        w = b'\x04' + ref.enc_len(len(b)) + b
    elif k == 'int' and not n.get('nv'):
        w = rng.getrandbits(size) + 1
    elif k == 'oid':
        w = v + tuple(rng.randrange(1 << rng.choice([3, 14, 40])) for _ in range(size // 10))
    elif k in ref.TEXT and k not in ('gtime', 'utctime'):
        w = (v + '7') * (size // (len(v) + 1)) + v[:1]
    else:
        return v
    return w if ref.ok(n.get('c'), k, w) else v


def values(nid, rng, depth, nrand, budget=40, open_types=False):
    """conforming values of one type, without repetition"""
    g = ref.Gen(S, rng, open_types)
    seen = set()
    if depth >= 0 and not open_types:
        for v in g.samples(nid, depth):
            key = repr(v)
            if key not in seen:
                seen.add(key)
                yield v
    for _ in range(nrand):
        v = g.random(nid, budget)
        key = repr(v)
        if key not in seen:
            seen.add(key)
            yield v
    for _ in range(min(2, nrand)):
        v = swell(nid, g.random(nid, rng.choice([4, 12])), rng)
        key = repr(v)
        if key not in seen and R.conforms(nid, v):
            seen.add(key)
            yield v


def nontrivial(nid, v):
    """a value is trivial when its type has nothing inside it"""
    return v not in (None, {}, [], b'', '')


def own_code(c):
    """does the package define functions for this class?"""
    return any(isinstance(v, (types.FunctionType, property, classmethod, staticmethod))
               for b in c.__mro__ if (b.__module__ or '').startswith('pyasn1_modules') for v in vars(b).values())


def hot(subs, depth=2):
    """the types in which code of the package itself runs: only there can
    history, threads or single values make a difference"""
    def walk(o, d):
        if own_code(o.__class__):
            return True
        if d == 0:
            return False
        ct = getattr(o, 'componentType', None)
        if isinstance(ct, namedtype.NamedTypes):
            return any(walk(x.asn1Object, d - 1) for x in ct.namedTypes)
        return ct is not None and walk(ct, d - 1)
    out = []
    for s in subs:
        try:
            if walk(getattr(module(s[0]), s[1])(), depth):
                out.append(s)
        except Exception:
            out.append(s)
    return out


def dose(types, full, least, room=40):
    """how much each type gets: `full` for few types with code of their own,
    less when there are many"""
    return max(least, min(full, full * room // max(1, len(types))))
