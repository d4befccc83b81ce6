"""Published identifiers and constants have the standards' values, and behave
as values: equality, hashing, order, text and octets."""
import random

import ref
from work import B, R, S, bridge, der_decoder, der_encoder, module, short, resolve

RULE = ('every identifier, constant and limit every module publishes, compared with the frozen value as number or '
        'tuple, text and octets; object identifiers are also used as dictionary keys, ordered, sliced and tested for '
        'being inside their own arc, and read back from octets inside generated messages. Non-trivial: the value has '
        'content; distinct by (module, name, way of use).')
MIN = 8000


def values():
    for m in sorted(S.modules):
        for k, (nid, d) in sorted(S.modules[m]['values'].items()):
            yield m, k, nid, bytes.fromhex(d)


def job(rec, items, rng):
    for m, k, nid, der in items:
        o = resolve(rec, m, k)
        if o is None:
            continue
        one(rec, m, k, nid, der, o, rng)


def one(rec, m, k, nid, der, o, rng):
    where = '%s.%s' % (m, k)
    kind = S.nodes[nid]['k']
    want = R.decode(nid, der)

    def use(name, f, expect):
        rec.see((where, name))
        try:
            got = f()
        except Exception as e:
            rec.bad('value:' + where, '%s (%s): %s' % (where, name, short(e)))
            return
        if got != expect or type(got) is not type(expect):
            rec.bad('value:' + where, '%s (%s): %s, the standard says %s' % (where, name, str(got)[:120], str(expect)[:120]))
    use('value', lambda: B.leaf(kind, o), want if kind != 'bool' else bool(want))
    use('octets', lambda: der_encoder.encode(o), der)
    use('is value', lambda: bool(o.isValue), True)
    if kind == 'oid':
        dotted = '.'.join(str(x) for x in want)
        use('text', lambda: str(o), dotted)
        use('pretty', lambda: o.prettyPrint(), dotted)
        use('==', lambda: bool(o == want and o == bridge.univ.ObjectIdentifier(dotted)), True)
        use('!=', lambda: bool(o != want + (1,) and o != want[:-1] + (want[-1] + 1,)), True)
        use('hash', lambda: {bridge.univ.ObjectIdentifier(dotted): 7}.get(o), 7)
        use('hash2', lambda: {o: 7}.get(bridge.univ.ObjectIdentifier(want)), 7)
        use('prefix', lambda: bool(o.isPrefixOf(bridge.univ.ObjectIdentifier(want + (5, 9)))), True)
        use('no prefix', lambda: bool(o.isPrefixOf(bridge.univ.ObjectIdentifier(want[:-1] + (want[-1] + 1, 3)))), False)
        use('length', lambda: len(o), len(want))
        use('items', lambda: tuple(o[i] for i in range(len(want))), want)
        use('arc', lambda: tuple(o + (3, 1)), want + (3, 1))
        use('from wire', lambda: bool(der_decoder.decode(der, asn1Spec=bridge.univ.ObjectIdentifier())[0] == o), True)
        use('from wire, own type', lambda: bool(der_decoder.decode(der, asn1Spec=o.clone())[0] == o), True)
        rec.sample(name=where, value=dotted)
    elif kind in ('int', 'enum'):
        use('int', lambda: int(o), want)
        use('order', lambda: bool(o < want + 1 and o > want - 1), True)
        use('hash', lambda: {want: 7}.get(o), 7)


def plain(rec, m):
    for k, want in sorted(S.modules[m]['plain'].items()):
        o = getattr(module(m), k, None)
        rec.see((m, k))
        if o is None:
            rec.bad('missing:%s.%s' % (m, k), '%s does not publish %s' % (m, k))
        elif want == 'MAX':
            if not (o == float('inf')):
                rec.bad('value:%s.%s' % (m, k), '%s.%s is %r, not unlimited' % (m, k, o))
        elif o != want:
            rec.bad('value:%s.%s' % (m, k), '%s.%s is %r, the standard says %r' % (m, k, o, want))


def others(oid, rng):
    """identifiers that are not this one, but nearly"""
    i = rng.randrange(2, len(oid)) if len(oid) > 2 else len(oid) - 1
    r = [oid + (0,), oid + (1, 1), oid[:-1] + (oid[-1] + 1,), oid[:i] + (oid[i] + 1,) + oid[i + 1:],
         (1, 2) + oid, (2, 5) + oid[2:], (1, 3) + oid[2:], oid[:i] + (0,) + oid[i:]]
    if len(oid) > 3:
        r += [oid[:-1], oid[:2] + oid[3:], oid[:2] + tuple(reversed(oid[2:]))]
    return [x for x in r if x != oid and x[0] < 3 and (x[0] == 2 or x[1] < 40)]


def inside(rec, item, rng):
    """an identifier read from a message equals the published one"""
    (m, k, nid), vals = item
    T = getattr(module(m), k)
    n = S.nodes[nid]
    f = [f for f in n['f'] if S.nodes[f['t']]['k'] == 'oid' and f['q'] == 'm']
    if not f:
        return
    g = ref.Gen(S, rng)
    for vm, vk, want in vals:
        c = getattr(module(vm), vk, None)
        if c is None:
            continue
        v = dict(g.minimal(nid))
        if not ref.ok(S.nodes[f[0]['t']].get('c'), 'oid', want):
            continue
        v[f[0]['n']] = want
        rec.see((m, k, vm, vk), inside=1)
        try:
            o, _ = der_decoder.decode(R.der(nid, v), asn1Spec=T())
            x = o[f[0]['n']]
            if not (x == c and hash(x) == hash(c) and {c: 1}.get(x) == 1):
                rec.bad('identifier:%s.%s' % (vm, vk), '%s.%s does not equal the same identifier read in a %s.%s' % (vm, vk, m, k))
            if not (x == want and tuple(x) == want and str(x) == '.'.join(map(str, want))):
                rec.bad('identifier:%s.%s' % (vm, vk), '%s.%s read in a %s.%s reads as %s' % (vm, vk, m, k, short(x)))
            # arcs of an identifier from a list of values are checked against the list
            limited = S.nodes[f[0]['t']].get('c')
            for y in others(want, rng):
                z = bridge.univ.ObjectIdentifier(y)
                rec.see((m, k, vm, vk, y), unequal=1)
                if x == z or z == x or not (x != z) or not (z != x) or {z: 1}.get(x) or x == y or \
                        bool(x < z) != (want < y) or bool(x > z) != (want > y) or \
                        bool(x.isPrefixOf(z)) != (y[:len(want)] == want) or \
                        not limited and bool(z.isPrefixOf(x)) != (want[:len(y)] == y):
                    rec.bad('mistaken:%s.%s' % (m, k), '%s read in a %s.%s is mistaken for %s' % (want, m, k, y))
            o = T()
            fn = S.nodes[f[0]['t']]
            o[f[0]['n']] = c if fn['t'] == [(0, 6)] and not fn.get('c') else tuple(c)
            if tuple(o[f[0]['n']]) != want:
                rec.bad('identifier:%s.%s' % (vm, vk), '%s.%s assigned to %s.%s reads as %s' % (vm, vk, m, k, o[f[0]['n']]))
        except Exception as e:
            rec.bad('identifier-use:%s.%s' % (m, k), '%s.%s used in %s.%s: %s' % (vm, vk, m, k, short(e)))


def run(ck):
    vals = list(values())
    ck.rec.count('published values', len(vals))
    by = {}
    for v in vals:
        by.setdefault(v[0], []).append(v)
    for m in sorted(S.modules):
        plain(ck.rec, m)
    ck.map(job, [by[m] for m in sorted(by)], 'values')
    oids = [(m, k, R.decode(nid, d)) for m, k, nid, d in vals if S.nodes[nid]['k'] == 'oid']
    holders = [s for s in S.types() if S.nodes[s[2]]['k'] in ('seq', 'set') and
               any(S.nodes[f['t']]['k'] == 'oid' and f['q'] == 'm' for f in S.nodes[s[2]]['f'])]
    rng = ck.rng('inside')
    ck.map(inside, [(h, rng.sample(oids, ck.pick(20, 400))) for h in holders], 'inside')
