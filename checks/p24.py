"""Reading a message in any way shows the same and changes nothing."""
import harness  # noqa: F401
import ref
import twin
from ref import CONSTRUCTED
from work import (AMBIGUOUS, B, R, S, ber_decoder, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects, swell)

RULE = ('values of each published type, read or put together, are looked through in random order by every way there is: '
        'components by name, position, key, iteration, items and values, members by index, slice and iteration, the chosen '
        'alternative by all its accessors, simple values as numbers, text, octets, bits, arcs, lengths and slices; each look '
        'must show the component of the model, and afterwards the value must be written and read as before. One evaluation '
        '= one look; distinct by (type, way, component content).')
MIN = 60000
ASSUMPTIONS = ['absent components that are structures are looked at without instantiating them: pyasn1 would put an empty one in place']


def same(o, nid, v):
    d = B.diff(o, nid, v)
    return d


def free(n):
    return not n.get('c')


def leafways(n, o, v):
    """(way, what it gives, what it should give)"""
    k = n['k']
    yield 'isValue', lambda: o.isValue, True
    if k in ('int', 'enum'):
        yield 'int', lambda: int(o), v
        yield 'index', lambda: hex(o), hex(v)
        if v.bit_length() < 500:
            yield 'float', lambda: float(o), float(v)
        names = [a for a, b in (n.get('nv') or {}).items() if b == v]
        yield 'text', lambda: o.prettyPrint() in (names or [str(v)]), True
    elif k == 'bool':
        yield 'bool', lambda: bool(o), v
        yield 'int', lambda: int(o), int(v)
    elif k == 'oid':
        yield 'tuple', lambda: tuple(o), v
        yield 'asTuple', lambda: o.asTuple(), v
        yield 'text', lambda: str(o), '.'.join(str(x) for x in v)
        yield 'pretty', lambda: o.prettyPrint(), '.'.join(str(x) for x in v)
        yield 'length', lambda: len(o), len(v)
        yield 'item', lambda: o[0], v[0]
        yield 'last', lambda: o[-1], v[-1]
        yield 'prefix', lambda: o.isPrefixOf(o), True
        yield 'index', lambda: o.index(v[0]), v.index(v[0])
    elif k in ('octets', 'any'):
        yield 'bytes', lambda: bytes(o), v
        yield 'asOctets', lambda: o.asOctets(), v
        yield 'asNumbers', lambda: tuple(o.asNumbers()), tuple(v)
        yield 'length', lambda: len(o), len(v)
        if free(n):
            yield 'slice', lambda: bytes(o[1:]), v[1:]
            yield 'joined', lambda: bytes(o + v), v + v
        yield 'in', lambda: all(x in o.asNumbers() for x in v), True
    elif k == 'bits':
        yield 'bits', lambda: ''.join(str(int(x)) for x in o), v
        yield 'length', lambda: len(o), len(v)
        yield 'tuple', lambda: tuple(o[i] for i in range(len(o))), tuple(int(x) for x in v)
        yield 'binary', lambda: o.asBinary().lstrip('0'), v.lstrip('0') or ''
        yield 'number', lambda: o.asInteger(), int(v, 2) if v else 0
        if len(v) % 8 == 0:
            yield 'asOctets', lambda: o.asOctets(), bytes(int(v[i:i + 8], 2) for i in range(0, len(v), 8))
            yield 'asNumbers', lambda: tuple(o.asNumbers()), tuple(int(v[i:i + 8], 2) for i in range(0, len(v), 8))
    elif k in ref.TEXT:
        yield 'text', lambda: str(o), v
        yield 'pretty', lambda: o.prettyPrint() == str(o) or bool(v.strip()) is False or o.prettyPrint(), True
        yield 'length', lambda: len(o), len(v)
        if free(n):
            yield 'slice', lambda: str(o[1:]), v[1:]
        yield 'octets', lambda: o.asOctets(), R.prim(k, v, ref.DER) if hasattr(R, 'prim') else None


def ways(nid, o, v, rng):
    """(way, a function that returns None or the difference)"""
    n = S.nodes[nid]
    k = n['k']
    if k not in CONSTRUCTED:
        def one(f, want):
            got = f()
            return None if got == want else '%s instead of %s' % (rep(got), rep(want))
        for way, f, want in leafways(n, o, v):
            yield way, lambda f=f, want=want: one(f, want)
        return

    def eq(got, want):
        return None if got == want else '%s instead of %s' % (rep(got), rep(want))
    yield 'isValue', lambda: eq(bool(o.isValue), True) if v or k in ('seqof', 'setof') else None
    yield 'isInconsistent', lambda: eq(bool(o.isInconsistent), False)
    yield 'printed', lambda: None if o.prettyPrint() and repr(o) else 'nothing'
    if k == 'choice':
        f = R.field(n, v[0])
        pos = [x['n'] for x in n['f']].index(v[0])
        yield 'getName', lambda: eq(o.getName(), v[0])
        yield 'keys', lambda: eq(list(o.keys()), [v[0]])
        yield 'iteration', lambda: eq(list(o), [v[0]])
        yield 'in', lambda: eq([x['n'] for x in n['f'] if x['n'] in o], [v[0]])
        yield 'length', lambda: eq(len(o), 1)
        for way, get in (('getComponent', lambda: o.getComponent()), ('key', lambda: o[v[0]]),
                         ('getComponentByName', lambda: o.getComponentByName(v[0])), ('position', lambda: o.getComponentByPosition(pos)),
                         ('values', lambda: list(o.values())[0]), ('items', lambda: dict(o.items())[v[0]])):
            yield way, lambda get=get: same(get(), f['t'], v[1])
        yield 'into', lambda: step(f['t'], o.getComponent(), v[1], rng)
        return
    if k in ('seqof', 'setof'):
        yield 'length', lambda: eq(len(o), len(v))

        def outside(i):
            try:
                x = o[i]
            except IndexError:
                return None
            return 'a member at %d of %d: %s' % (i, len(v), short(x, 80))
        for i in (-len(v) - 1, -len(v) - 2 - rng.randrange(5)):
            yield 'outside', lambda i=i: outside(i)
        if not v:
            return
        i, j, k = (rng.choice([None, rng.randrange(-len(v) - 2, len(v) + 3)]) for _ in range(3))
        if k != 0:
            part = slice(i, j, k)
            yield 'stretch', lambda: eq(len(o[part]), len(v[part])) or next((d for d in (same(x, n['e'], y) for x, y in zip(o[part], v[part])) if d), None)
        yield 'reversed', lambda: next((d for d in (same(x, n['e'], y) for x, y in zip(reversed(o), reversed(v))) if d), None)
        i = rng.randrange(len(v))
        e = n['e']
        yield 'iteration', lambda: next((d for d in (same(x, e, y) for x, y in zip(o, v)) if d), None) or eq(sum(1 for _ in o), len(v))
        yield 'index', lambda: same(o[i], e, v[i])
        yield 'negative', lambda: same(o[-1], e, v[-1])
        yield 'slice', lambda: next((d for d in (same(x, e, y) for x, y in zip(o[i:], v[i:])) if d), None) or eq(len(o[i:]), len(v) - i)
        yield 'position', lambda: same(o.getComponentByPosition(i), e, v[i])
        yield 'components', lambda: next((d for d in (same(x, e, y) for x, y in zip(o.components, v)) if d), None)
        yield 'list', lambda: same(list(o)[i], e, v[i])
        yield 'into', lambda: step(e, o[i], v[i], rng)
        return
    names = [f['n'] for f in n['f']]
    yield 'names', lambda: eq(list(o.keys()), names) if names else None
    yield 'iteration', lambda: eq(list(o), names) if names else None
    if all(f['n'] in v or f['q'] == 'd' or S.nodes[f['t']]['k'] not in CONSTRUCTED for f in n['f']) and names:
        def each(pairs):
            got = list(pairs)
            if [a for a, b in got] != names:
                return eq([a for a, b in got], names)
            for a, b in got:
                if twin.root(type(b)) is not twin.root(type(o[a])):
                    return '%s is shown as a kind of %s' % (a, twin.root(type(b)).__name__)
                if a in v:
                    d = same(b, R.field(n, a)['t'], v[a])
                    if d:
                        return d
        yield 'items', lambda: each(o.items())
        yield 'values', lambda: each(zip(names, o.values()))
    for pos, f in enumerate(n['f']):
        a = f['n']
        yield 'named', lambda a=a, pos=pos: eq((a in o, o.getNameByPosition(pos), o.componentType.getPositionByName(a)), (True, a, pos))
        cons = S.nodes[f['t']]['k'] in CONSTRUCTED
        if a in v:
            x = v[a]
            for way, get in (('key', lambda a=a: o[a]), ('number', lambda pos=pos: o[pos]), ('getComponentByName', lambda a=a: o.getComponentByName(a)),
                             ('getComponentByPosition', lambda pos=pos: o.getComponentByPosition(pos)),
                             ('without instantiating', lambda a=a: o.getComponentByName(a, default=None, instantiate=False))):
                yield way, lambda get=get, f=f, x=x: same(get(), f['t'], x)
            if cons:
                yield 'into', lambda a=a, f=f, x=x: step(f['t'], o[a], x, rng)
        elif f['q'] == 'o':
            def absent(get):
                x = get()
                return None if x is None or not x.isValue else 'a value for an absent component'
            yield 'absent', lambda a=a: absent(lambda: o.getComponentByName(a, default=None, instantiate=False))
            if not cons:
                yield 'absent key', lambda a=a: absent(lambda: o[a])
                yield 'absent number', lambda pos=pos: absent(lambda: o.getComponentByPosition(pos))
        elif f['q'] == 'd' and not cons:
            yield 'default', lambda a=a, f=f: same(o[a], f['t'], R.default(f))


class Wrong(Exception):
    pass


def step(nid, o, v, rng, k=4):
    """a few looks at one part"""
    ws = list(ways(nid, o, v, rng))
    for way, f in rng.sample(ws, min(k, len(ws))):
        d = f()
        if d:
            return '%s: %s' % (way, d)


def job(rec, item, rng):
    (m, k, nid), count, looks = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    g = ref.Gen(S, rng)
    for i in range(count):
        v = g.random(nid, rng.choice([3, 10, 30]))
        if rng.random() < 0.1:
            v = swell(nid, v, rng)
            if not R.conforms(nid, v):
                continue
        der = R.der(nid, v)
        if len(der) > 8000:
            continue
        v = R.decode(nid, der)
        log = []

        def bad(kind, what):
            rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), value=rep(v, 1500), der=der.hex(), looks=log[-40:])
        try:
            if rng.random() < 0.3:
                o = B.build(T(), nid, v)
            else:
                o = (der_decoder if rng.random() < 0.7 else ber_decoder).decode(der, asn1Spec=T())[0]
        except Exception as e:
            bad('had', 'cannot be had: %s' % short(e))
            continue
        wrong = False
        for _ in range(looks):
            ws = list(ways(nid, o, v, rng))
            way, f = rng.choice(ws)
            log.append(way)
            rec.see((nid, way, der) if nontrivial(nid, v) else None, **{way: 1})
            try:
                d = f()
            except Exception as e:
                d = 'fails: ' + short(e)
            if d:
                bad(way, 'looked at (%s) it shows %s' % (way, d))
                wrong = True
                break
        if wrong:
            continue
        d = same(o, nid, v)
        if d:
            bad('after', 'having been looked at it shows %s' % d)
            continue
        try:
            got = der_encoder.encode(o)
        except Exception as e:
            bad('after', 'having been looked at it cannot be written: %s' % short(e))
            continue
        if got != der:
            bad('after', 'having been looked at it is written as %s, not %s' % (got.hex()[:300], der.hex()[:300]))
        if i == 0:
            rec.sample(type=where, looks=', '.join(log[:20]))


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 5, 25) for s in subs] + [(s, dose(own, 150, 10), 25) for s in own])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 40:
        ck.map(job, [(s, 12, 50) for s in subs], 'r%d' % r, budget=400)
        r += 1
