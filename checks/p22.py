"""Values with the same content are equal, and no others."""
import harness  # noqa: F401
import ref
from ref import CONSTRUCTED
from work import (AMBIGUOUS, B, R, S, ber_decoder, der_decoder, dose, hot, module, nontrivial, rep, short, spread, subjects, swell)

RULE = ('for each published type: random values are read twice, put together twice (in different orders), and compared '
        'whole and part by part, also after being written, printed and copied; the same values with one leaf changed a little '
        '(a digit, a blank, the case, a bit, an arc, a second) must not be equal; simple values are also compared with plain '
        'Python values, ordered, hashed and looked up in sets. One evaluation = one comparison; distinct by (type, pair of octets).')
MIN = 20000
ASSUMPTIONS = ['comparisons the codec library refuses (a component set in one value only) or decides without looking at the '
               'chosen alternative are not judged: only values of the same shape are compared for difference']
ORDERED = ('int', 'octets', 'oid', 'enum') + tuple(ref.TEXT)


def leaves(nid, v, path=()):
    n = S.nodes[nid]
    k = n['k']
    if k == 'choice':
        for x in leaves(R.field(n, v[0])['t'], v[1], path + (1,)):
            yield x
    elif k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v:
                for x in leaves(f['t'], v[f['n']], path + (f['n'],)):
                    yield x
    elif k in ('seqof', 'setof'):
        for i, y in enumerate(v):
            for x in leaves(n['e'], y, path + (i,)):
                yield x
    else:
        yield path, nid


def at(v, path):
    for p in path:
        v = v[p]
    return v


def changed(v, path, x):
    if not path:
        return x
    p = path[0]
    if isinstance(v, tuple):
        return v[0], changed(v[1], path[1:], x)
    if isinstance(v, list):
        return [changed(y, path[1:], x) if i == p else y for i, y in enumerate(v)]
    return dict((a, changed(b, path[1:], x) if a == p else b) for a, b in v.items())


def parts(o, p, nid, v, out):
    """the parts of two values read from the same octets"""
    n = S.nodes[nid]
    k = n['k']
    out.append((o, p, nid, v))
    if k == 'choice':
        parts(o.getComponent(), p.getComponent(), R.field(n, v[0])['t'], v[1], out)
    elif k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v:
                parts(o[f['n']], p[f['n']], f['t'], v[f['n']], out)
    elif k in ('seqof', 'setof'):
        for i, x in enumerate(v):
            parts(o[i], p[i], n['e'], x, out)


def bitchoice(nid, v):
    """a chosen BIT STRING: the codec library cannot compare it"""
    n = S.nodes[nid]
    k = n['k']
    if k == 'choice':
        t = R.field(n, v[0])['t']
        return S.nodes[t]['k'] == 'bits' or bitchoice(t, v[1])
    if k in ('seq', 'set'):
        return any(f['n'] in v and bitchoice(f['t'], v[f['n']]) for f in n['f'])
    return k in ('seqof', 'setof') and any(bitchoice(n['e'], x) for x in v)


def job(rec, item, rng):
    (m, k, nid), count = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    g = ref.Gen(S, rng)

    def bad(kind, what, v, w=None):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), value=rep(v, 1500), other=rep(w, 1500))

    def equal(a, b, what, v):
        rec.see((nid, what, R.der(nid, v)) if nontrivial(nid, v) else None, equal=1)
        try:
            if not (a == b) or a != b or not (b == a) or b != a:
                bad('unequal', '%s are not equal' % what, v)
        except Exception as e:
            bad('unequal', '%s cannot be compared: %s' % (what, short(e)), v)
    for i in range(count):
        v = g.random(nid, rng.choice([3, 8, 25]))
        if i == 0 and rng.random() < 0.5:
            v = swell(nid, v, rng)
            if not R.conforms(nid, v):
                continue
        der = R.der(nid, v)
        if len(der) > 6000:
            continue
        v = R.decode(nid, der)
        if bitchoice(nid, v):
            rec.count('not judged')
            continue
        dec = der_decoder if rng.random() < 0.8 else ber_decoder
        try:
            a, b = dec.decode(der, asn1Spec=T())[0], der_decoder.decode(der, asn1Spec=T())[0]
            c, d = B.build(T(), nid, v), B.build(T(), nid, v, rng if rng.random() < 0.5 else None)
        except Exception as e:
            bad('had', 'cannot be had: %s' % short(e), v)
            continue
        equal(a, b, 'two values read from the same octets', v)
        equal(c, d, 'two values put together from the same parts', v)
        equal(a, a, 'a value and itself', v)
        r = rng.random()
        if r < 0.2:
            a.prettyPrint()
            b.prettyPrint()
            equal(a, b, 'two values that were printed', v)
        ps = []
        try:
            parts(a, b, nid, v, ps)
        except Exception as e:
            bad('parts', 'cannot be walked through: %s' % short(e), v)
            continue
        for x, y, pn, pv in rng.sample(ps, min(len(ps), 5)):
            if S.nodes[pn]['k'] in CONSTRUCTED:
                equal(x, y, 'the same parts of two values read', v)
            else:
                leaf(rec, bad, where, x, y, pn, pv, g, rng)
        # one leaf changed
        ls = [x for x in leaves(nid, v) if S.nodes[x[1]]['k'] not in ('null',)]
        for path, ln in rng.sample(ls, min(len(ls), 3)):
            w = changed(v, path, g.near(ln, at(v, path)))
            if not R.conforms(nid, w):
                continue
            other = R.der(nid, w)
            if other == der:
                continue
            try:
                e = der_decoder.decode(other, asn1Spec=T())[0]
                f = B.build(T(), nid, w)
            except Exception as ex:
                bad('had', 'cannot be had: %s' % short(ex), w)
                continue
            rec.see((nid, der, other), different=1)
            for x, y in ((a, e), (e, b), (c, f)):
                try:
                    if x == y or not x != y:
                        bad('equal', 'values that differ in %s are equal' % '.'.join(str(z) for z in path), v, w)
                        break
                except Exception:
                    rec.count('comparison refused')
        if i == 0:
            rec.sample(type=where, der=der.hex()[:200])


def leaf(rec, bad, where, x, y, pn, pv, g, rng):
    n = S.nodes[pn]
    k = n['k']
    rec.see((where, 'leaf', pn, repr(pv)), leaf=1)
    try:
        if not x == y or x != y:
            bad('unequal', 'simple parts with the same value are not equal', pv)
        if k != 'bits' and (hash(x) != hash(y) or y not in {x} or {x: 1}.get(y) != 1):
            bad('hash', 'simple parts with the same value are not the same in a set', pv)
        if k in ('int', 'enum', 'bool', 'octets', 'any', 'oid') or k in ref.TEXT:
            if not x == pv or x != pv:
                bad('plain', 'a simple part is not equal to its plain value', pv)
        w = g.near(pn, pv)
        if w != pv and R.conforms(pn, w) and not (k == 'bits' and w.rstrip('0') == pv.rstrip('0') and n.get('nv')):
            z = x.clone(B.leafval(n, w))
            rec.see((where, 'leaves', pn, repr(pv), repr(w)), leaf=1)
            if x == z or not x != z or k != 'bits' and z in {x}:
                bad('equal', 'simple parts with different values are equal', pv, w)
            if k in ('int', 'enum', 'bool', 'octets', 'oid') and (x == w or not x != w):
                bad('equal', 'a simple part is equal to another plain value', pv, w)
            if k in ORDERED and not isinstance(w, bool) and k not in ('utctime', 'gtime'):
                if ((x < z), (x <= z), (x > z), (x >= z)) != ((pv < w), (pv <= w), (pv > w), (pv >= w)):
                    bad('order', 'simple parts are ordered unlike their values', pv, w)
    except Exception as e:
        bad('leaf', 'simple parts cannot be compared: %s' % short(e), pv)


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 6) for s in subs] + [(s, dose(own, 150, 12)) for s in own])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 40:
        ck.map(job, [(s, 20) for s in subs], 'r%d' % r, budget=400)
        r += 1
