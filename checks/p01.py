"""Encoding conformance: values built through the published field names are
accepted and come out as the DER octets of the independent encoder."""
from work import B, R, S, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects, values

RULE = ('for each published type: a coverage set (every optional/default component alone and together, every '
        'alternative, every declared limit, every interesting leaf value) plus seeded random values; each is built '
        'through the public field names and its DER compared with an independent encoder. Trivial: empty values; '
        'distinct by (type, octets).')
MIN = 20000


def job(rec, item, rng):
    (m, k, nid), depth, nrand = item
    T = getattr(module(m), k)
    for v in values(nid, rng, depth, nrand):
        want = R.der(nid, v)
        rec.see((nid, want) if nontrivial(nid, v) else None)
        where = '%s.%s' % (m, k)
        try:
            o = B.build(T(), nid, v, ways=rng if rng.random() < 0.5 else None)
        except Exception as e:
            rec.bad('refused:' + where, 'well-formed %s refused: %s' % (where, short(e)), value=rep(v, 2000))
            continue
        try:
            got = der_encoder.encode(o)
        except Exception as e:
            rec.bad('unencodable:' + where, '%s cannot be encoded: %s' % (where, short(e)), value=rep(v, 2000))
            continue
        if got != want:
            rec.bad('octets:' + where, '%s encodes as %s, the standard says %s' % (
                where, got.hex()[:160], want.hex()[:160]), value=rep(v, 2000), got=got.hex(), want=want.hex())
        elif len(want) > 8:
            rec.sample(type=where, value=rep(v, 160), der=want.hex())


def probes(rec):
    """[1] around an open type is an explicit, hence constructed, tag (X.680,
    31.2.7); the tree writes the primitive form"""
    for m in ('rfc2634', 'rfc3281', 'rfc5755'):
        o = module(m).SecurityCategory()
        o['type'] = '1.2.3'
        o['value'] = b'\x0c\x01A'
        rec.see('security category ' + m)
        got = der_encoder.encode(o).hex()
        if got == '300980022a0381030c0141':
            rec.bad('security-category-primitive-tag', '%s.SecurityCategory value written under tag 81' % m)
        elif got != '300980022a03a1030c0141':
            rec.bad('security-category:' + m, '%s.SecurityCategory written as %s' % (m, got))


def run(ck):
    probes(ck.rec)
    subs = spread(subjects(ck.rec), ck.seed)
    ck.count = ck.rec.count
    ck.rec.count('types', len(subs))
    own = hot(subs)
    ck.map(job, [(s, 0, 60) for s in subs] + [(s, -1, dose(own, 300, 60)) for s in own])
    if ck.thorough:
        ck.map(job, [(s, 1, 0) for s in subs], 'deep', budget=500)
        rnd = 0
        while ck.elapsed() < 420 and rnd < 40:
            ck.map(job, [(s, -1, 60) for s in subs], 'rand%d' % rnd, budget=500)
            rnd += 1
