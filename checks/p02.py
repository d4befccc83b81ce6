"""Decoding fidelity: reading reference octets back gives the same value, the
untouched remainder and the same octets again."""
import ref
from work import (AMBIGUOUS, B, R, S, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects,
                  values)

RULE = ('for each published type: coverage set plus seeded random values, encoded by the independent encoder and '
        'followed by a varying tail; decoded with the type, compared field by field (presence, defaults, content), '
        'tail compared, re-encoded. Trivial: empty values; distinct by (type, octets).')
MIN = 20000
ASSUMPTIONS = ['rfc6402.ChangeSubjectName is left out: its published grammar is ambiguous']
TAILS = [b'', b'\x05\x00', b'\x00', b'\x30', b'\xff\xff\xff', b'\x30\x80', b'trailing octets']


def job(rec, item, rng):
    (m, k, nid), depth, nrand = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    for i, v in enumerate(values(nid, rng, depth, nrand)):
        data = R.der(nid, v)
        check(rec, T, where, nid, v, data, TAILS[i % len(TAILS)])


def check(rec, T, where, nid, v, data, tail):
    rec.see((nid, data) if nontrivial(nid, v) else None)
    detail = dict(value=rep(v, 2000), der=data.hex())
    try:
        o, rest = der_decoder.decode(data + tail, asn1Spec=T())
    except Exception as e:
        rec.bad('undecodable:' + where, 'well-formed %s refused: %s' % (where, short(e)), **detail)
        return
    if rest != tail:
        rec.bad('rest:' + where, '%s: %d octets left over instead of %d' % (where, len(rest), len(tail)), **detail)
    d = B.diff(o, nid, v)
    if d:
        rec.bad('value:' + where, '%s%s' % (where, d), **detail)
    try:
        again = der_encoder.encode(o)
    except Exception as e:
        rec.bad('reencode:' + where, 'decoded %s cannot be encoded again: %s' % (where, short(e)), **detail)
        return
    if again != data:
        rec.bad('octets:' + where, 'decoded %s is written back as %s' % (where, again.hex()[:200]), **detail)
    elif len(data) > 8:
        rec.sample(type=where, der=data.hex())


def probes(rec):
    """the known findings, each by its own deterministic case"""
    m = module('rfc5035')
    o, _ = der_decoder.decode(bytes.fromhex('30060404aabbccdd'), asn1Spec=m.ESSCertIDv2())
    alg = o['hashAlgorithm']
    rec.see('esscertidv2 default')
    p = bytes(alg['parameters']) if alg['parameters'].isValue else None
    if str(alg['algorithm']) != '2.16.840.1.101.3.4.2.1' or p not in (None, b'\x04\x00'):
        rec.bad('default:rfc5035.ESSCertIDv2', 'an absent hashAlgorithm reads as %s %r' % (alg['algorithm'], p))
    elif p is not None:
        rec.bad('esscertidv2-default-parameters', 'an absent hashAlgorithm reads as sha256 with parameters 0400')
    # search filters may be nested to any depth (RFC 2251, 4.5.1)
    F = module('rfc2251').Filter
    for depth in range(0, 9):
        data = ref.tlv(2, 7, False, b'cn')
        for i in range(depth):
            data = ref.tlv(2, (2, 1, 0)[i % 3], True, data) if i % 3 else ref.tlv(2, 2, True, data)
        rec.see(('filter', depth))
        try:
            o, rest = der_decoder.decode(data, asn1Spec=F())
            if rest or der_encoder.encode(o) != data:
                rec.bad('filter:%d' % depth, 'a search filter nested %d deep is not read and written faithfully' % depth)
        except Exception as e:
            if depth <= 2:
                rec.bad('filter:%d' % depth, 'a search filter nested %d deep is refused: %s' % (depth, short(e)))
            else:
                rec.bad('filter-depth', 'a search filter nested %d deep is refused' % depth)


def run(ck):
    probes(ck.rec)
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    ck.rec.count('types', len(subs))
    own = hot(subs)
    ck.map(job, [(s, 0, 10) for s in subs] + [(s, -1, dose(own, 200, 20)) for s in own])
    if ck.thorough:
        ck.map(job, [(s, 1, 0) for s in subs], 'deep', budget=500)
        rnd = 0
        while ck.elapsed() < 420 and rnd < 40:
            ck.map(job, [(s, -1, 60) for s in subs], 'rand%d' % rnd, budget=500)
            rnd += 1
