"""Parts made or read on their own fit wherever their type is declared."""
import json
import os

import harness  # noqa: F401
import ref
from ref import CONSTRUCTED
from work import (AMBIGUOUS, B, R, S, ber_decoder, der_decoder, der_encoder, module, nontrivial, rep, short, spread, subjects)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ('every component of every published type that is declared with a published type (%d places): values of that type '
        'are made from its class, decoded on their own, taken out of another message of the same or of another type that '
        'declares it, or opened from an open type, and put in place by name, by position, by append or extend; the rest of '
        'the message is filled and the octets must be those of the whole. One evaluation = one part put in one place; '
        'distinct by (place, origin, octets).')
MIN = 8000
ASSUMPTIONS = ['a part put in place is shared, not copied: it is not edited afterwards',
               'components with tags of their own take values of the tagged type, not of the published class: P20']

with open(os.path.join(HERE, 'spec', 'parts.json')) as f:
    PARTS = json.load(f)
RULE = RULE % len(PARTS)


def places():
    out, byclass = [], {}
    for m, k, name, cm, ck, quirk in PARTS:
        if (m, k) in AMBIGUOUS:
            continue
        nid = S.modules[m]['types'][k]
        n = S.nodes[nid]
        t = n['e'] if name is None else R.field(n, name)['t']
        p = (m, k, nid, name, t, cm, ck, quirk)
        out.append(p)
        byclass.setdefault((cm, ck), []).append(p)
    return out, byclass


ALL, BYCLASS = places()


def whole(g, p, x):
    """a value of the holder with x in the place"""
    m, k, nid, name, t, cm, ck, quirk = p
    n = S.nodes[nid]
    if name is None:
        sizes = [s for s in g.seq_sizes(n) if s] or [1]
        others = [x if g.rng.random() < 0.25 else g.random(t, 4) for _ in range(g.rng.randrange(0, 3))]
        v = others + [x]
        while len(v) < min(sizes):
            v.append(g.random(t, 4))
        return v if ref.ok(n.get('c'), n['k'], v) else [x] * min(sizes)
    if n['k'] == 'choice':
        return name, x
    v = dict(g.random(nid, g.rng.choice([0, 8, 20])))
    v[name] = x
    v = dict((f['n'], v[f['n']]) for f in n['f'] if f['n'] in v)
    if not ref.ok(n.get('c'), n['k'], v):
        v = dict(g.minimal(nid) or {})
        v[name] = x
        v = dict((f['n'], v[f['n']]) for f in n['f'] if f['n'] in v)
    return v


def pick(o, p, i=None):
    """the part of a decoded holder"""
    name = p[3]
    return o[len(o) - 1 if i is None else i] if name is None else o[name]


def put(o, p, v, part, how):
    """the holder's value v, with the part standing for its component"""
    m, k, nid, name, t, cm, ck, quirk = p
    n = S.nodes[nid]
    if name is None:
        at = len(v) - 1
        objs = [B.build(getattr(module(cm), ck)(), t, x) if S.nodes[t]['k'] in CONSTRUCTED else B.leafval(S.nodes[t], x) for x in v[:at]] + [part]
        if how == 0:
            for x in objs:
                o.append(x)
        elif how == 1:
            o.extend(objs)
        elif how == 2:
            for i, x in enumerate(objs):
                o[i] = x
        else:
            for i, x in enumerate(objs):
                o.setComponentByPosition(i, x)
        return
    if n['k'] != 'choice' and how % 2:
        B.fill(o, n, dict((a, b) for a, b in v.items() if a != name))
    if how < 2:
        o[name] = part
    elif how == 2:
        o.setComponentByName(name, part)
    else:
        o.setComponentByPosition(o.componentType.getPositionByName(name), part)
    if n['k'] != 'choice' and not how % 2 and len(v) > 1:
        B.fill(o, n, dict((a, b) for a, b in v.items() if a != name))


def job(rec, p, rng, count):
    m, k, nid, name, t, cm, ck, quirk = p
    T, C = getattr(module(m), k), getattr(module(cm), ck)
    where = '%s.%s%s' % (m, k, '[]' if name is None else '.' + name)
    g = ref.Gen(S, rng)
    f = R.field(S.nodes[nid], name) if name is not None else None
    cons = S.nodes[t]['k'] in CONSTRUCTED
    # the type as published may be wider than where it is used
    cid = S.modules[cm]['types'][ck]
    for i in range(count):
        x = g.random(t, rng.choice([0, 6, 15]))
        if not R.conforms(cid, x) or f is not None and f['q'] in 'od' and g.empty(t, x):
            rec.count('not judged')
            continue
        v = whole(g, p, x)
        if not R.conforms(nid, v):
            rec.count('not judged')
            continue
        want = R.der(nid, v)
        part = R.der(cid, x)
        if len(want) > 6000:
            continue
        origins = ['made', 'read', 'taken', 'own']
        if not cons:
            origins.append('twice')
        if name is None and not quirk:
            wholesale(rec, p, v, want, rng)
        for origin in origins:
            how = rng.randrange(4)
            source = None

            def bad(kind, what):
                rec.bad('%s:%s' % (kind, where), '%s: a %s.%s %s: %s' % (where, cm, ck, origin, what), value=rep(v, 1500), der=want.hex())
            try:
                if origin == 'made':
                    c = B.build(C(), cid, x) if cons else C(B.leafval(S.nodes[t], x))
                elif origin == 'read':
                    c, rest = (der_decoder if rng.random() < 0.7 else ber_decoder).decode(part, asn1Spec=C())
                elif origin == 'twice':
                    c = C(C(B.leafval(S.nodes[t], x)))
                else:
                    q = p if origin == 'own' else rng.choice(BYCLASS[cm, ck])
                    w = whole(g, q, x)
                    if not R.conforms(q[2], w):
                        w = q = None
                    if w is None:
                        continue
                    a = R.der(q[2], w)
                    # members of a SET OF change places
                    if S.nodes[q[2]]['k'] == 'setof':
                        if len(w) > 1:
                            continue
                    source = o = der_decoder.decode(a, asn1Spec=getattr(module(q[0]), q[1])())[0]
                    c = pick(o, q)
                    origin = 'of a %s.%s' % q[:2] if origin == 'taken' else 'of another one'
            except Exception as e:
                bad('origin', 'cannot be had: %s' % short(e))
                continue
            o = T()
            rec.see((nid, name, origin, want) if nontrivial(t, x) else None, **{'made' if origin == 'made' else 'read': 1})
            try:
                put(o, p, v, c, how)
            except Exception as e:
                if quirk and origin != 'made' and 'is tag-incompatible' in str(e):
                    rec.bad('copy:' + where, '%s: a %s.%s %s is refused' % (where, cm, ck, origin), der=want.hex())
                else:
                    bad('refused', 'is refused: %s' % short(e))
                continue
            try:
                got = der_encoder.encode(o)
            except Exception as e:
                bad('write', 'put in place, the whole cannot be written: %s' % short(e))
                continue
            if got != want:
                bad('octets', 'put in place, the whole is written as %s, not %s' % (got.hex()[:300], want.hex()[:300]))
                continue
            if source is not None and not dangling(g, q[2], w):
                try:
                    got = der_encoder.encode(source)
                except Exception as e:
                    got = short(e).encode()
                if got != a:
                    bad('source', 'where it was taken from is left as %s, not %s' % (got.hex()[:300], a.hex()[:300]))
                    continue
            rec.sample(place=where, origin=origin, der=want.hex()[:200])


def dangling(g, nid, v):
    """is an optional part there, but empty?  Looked at, pyasn1 leaves it out"""
    n = S.nodes[nid]
    if n['k'] == 'choice':
        return dangling(g, R.field(n, v[0])['t'], v[1])
    if n['k'] in ('seq', 'set'):
        return any(f['n'] in v and (f['q'] == 'o' and g.empty(f['t'], v[f['n']]) or dangling(g, f['t'], v[f['n']])) for f in n['f'])
    if n['k'] in ('seqof', 'setof'):
        return any(dangling(g, n['e'], x) for x in v)
    return False


def wholesale(rec, p, v, want, rng):
    """all members of one list put into another of the same type"""
    m, k = p[:2]
    T = getattr(module(m), k)
    where = '%s.%s[]' % (m, k)
    v = R.decode(p[2], want)
    how = rng.choice(['extend', 'extend members', 'append', 'index', 'extend slice'])
    rec.see((p[2], 'wholesale', how, want) if v else None, wholesale=1)
    try:
        source, o = der_decoder.decode(want, asn1Spec=T())[0], T()
        if how == 'extend':
            o.extend(source)
        elif how == 'extend members':
            o.extend([x for x in source])
        elif how == 'append':
            for x in source:
                o.append(x)
        elif how == 'index':
            for i, x in enumerate(source):
                o[i] = x
        else:
            o.extend(source[:1])
            o.extend(source[1:])
        got, left = der_encoder.encode(o), der_encoder.encode(source)
    except Exception as e:
        rec.bad('wholesale:' + where, '%s: members of a list cannot be taken over (%s): %s' % (where, how, short(e)), der=want.hex())
        return
    if got != want or left != want:
        rec.bad('wholesale:' + where, '%s: members taken over (%s) are written as %s, the list they are of as %s, not as %s' % (
            where, how, got.hex()[:200], left.hex()[:200], want.hex()[:200]), der=want.hex())


def run(ck):
    subjects(ck.rec)

    def go(rec, item, rng):
        job(rec, item[0], rng, item[1])
    ck.map(go, [(p, 8) for p in spread(ALL, ck.seed)])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 60:
        ck.map(go, [(p, 12) for p in spread(ALL, ck.seed + r)], 'r%d' % r, budget=400)
        r += 1
