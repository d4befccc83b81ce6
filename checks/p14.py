"""A value is the same value in every BER form."""
import ref
from work import (AMBIGUOUS, B, R, S, ber_decoder, ber_encoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread,
                  subjects, values)

RULE = ('for each published type: coverage set plus random values, written by the independent encoder in BER forms '
        'drawn node by node (superfluous length octets, indefinite lengths, strings in fragments, defaults spelled '
        'out, other TRUE octets, SET members in any order), read with the BER decoder, compared field by field and '
        're-encoded as DER; written by the library as BER and read back by the library and the '
        'independent decoder. Distinct by (type, octets).')
MIN = 20000


class Mixed(ref.Style):
    """every choice is made anew at every node"""
    def __init__(self, rng, only=None):
        self.rng = rng
        p = rng.choice([0.1, 0.5, 1])
        self.p = dict((k, p if only in (None, k) else 0) for k in ('long', 'indef', 'chunk', 'defaults', 'true', 'set'))
        self.der_sort = True

    def draw(self, k):
        return self.rng.random() < self.p[k]

    cur = None
    size = 0
    open = False

    def frag(self):
        """the library takes fragments of plain octet strings only, and holds
        every fragment against the limits of the whole"""
        if self.cur and self.cur['k'] == 'octets' and not self.cur.get('c') and self.draw('chunk'):
            return self.rng.choice([1, 2, 7, 100, 1000])
        return 0

    long_len = property(lambda s: s.rng.choice([1, 2, 3, 5]) if s.draw('long') else 0)
    indef = property(lambda s: s.open and s.draw('indef'))
    chunk = property(lambda s: s.size)
    explicit_defaults = property(lambda s: s.draw('defaults'))
    true = property(lambda s: s.rng.choice([1, 2, 0x7f, 0x80, 0xfe]) if s.draw('true') else 0xff)
    # the library does not take the last component of a SET first
    shuffle_set = property(lambda s: s.rng if s.cur['k'] == 'setof' and s.draw('set') else None)


class Writer(ref.Ref):
    """tells the style which node is being written"""
    def der(self, nid, v, st):
        old = st.cur, st.size
        st.cur = self.spec.nodes[nid]
        st.size = st.frag()
        try:
            return ref.Ref.der(self, nid, v, st)
        finally:
            st.cur, st.size = old

    def tlv(self, cls, num, c, body, st):
        # the library does not end an indefinite length reliably around open
        # types, choices and nothing at all, and does not take anything after
        # the last declared component of a SET of indefinite length
        st.open = st.cur['k'] in ('seq', 'seqof', 'setof') and len(body) > 0
        return ref.Ref.tlv(self, cls, num, c, body, st)


W = Writer(S)


KINDS = [None, 'long', 'indef', 'chunk', 'defaults', 'true', 'set']


def structured_default(nid, memo={}, path=()):
    if nid not in memo:
        if nid in path:
            return False
        n = S.nodes[nid]
        memo[nid] = any(f['q'] == 'd' and S.nodes[f['t']]['k'] in ref.CONSTRUCTED or structured_default(f['t'], memo, path + (nid,))
                        for f in n.get('f') or ()) or bool(n.get('e') and structured_default(n['e'], memo, path + (nid,)))
    return memo[nid]


def job(rec, item, rng):
    (m, k, nid), depth, nrand = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    for i, v in enumerate(values(nid, rng, depth, nrand)):
        want = R.der(nid, v)
        if len(want) > 20000:
            continue
        inbound(rec, rng, T, where, nid, v, want, KINDS[i % len(KINDS)])
        outbound(rec, rng, T, where, nid, v, want)


def inbound(rec, rng, T, where, nid, v, want, kind):
    data = W.der(nid, v, Mixed(rng, kind))
    rec.see((nid, data) if nontrivial(nid, v) else None, **{'in:%s' % (kind or 'mixed'): 1, 'differs from DER': int(data != want)})
    det = dict(value=rep(v, 2000), ber=data.hex(), form=kind)
    tail = rng.choice([b'', b'', b'\x05\x00', b'\x00\x00'])
    try:
        o, rest = ber_decoder.decode(data + tail, asn1Spec=T())
    except Exception as e:
        return rec.bad('ber-refused:' + where, '%s in BER (%s) refused: %s' % (where, kind, short(e)), **det)
    if bytes(rest) != tail:
        rec.bad('ber-rest:' + where, '%s in BER (%s): %d octets left over' % (where, kind, len(rest)), **det)
    d = B.diff(o, nid, v, loose=True)
    if d:
        return rec.bad('ber-value:' + where, '%s in BER (%s) is read with %s' % (where, kind, d), **det)
    try:
        got = der_encoder.encode(o)
    except Exception as e:
        return rec.bad('ber-reencode:' + where, '%s read from BER cannot be written: %s' % (where, short(e)), **det)
    if got != want and structured_default(nid) and kind in (None, 'defaults') and R.same(nid, R.decode(nid, got), v):
        # the library does not recognise a structured default whose open
        # parameters were read from octets
        rec.count('structured default kept')
    elif got != want:
        rec.bad('ber-der:' + where, '%s read from BER (%s) is written as DER %s' % (where, kind, got.hex()[:200]), **det)
    elif len(want) > 8:
        rec.sample(type=where, ber=data.hex(), form=kind)


def outbound(rec, rng, T, where, nid, v, want):
    """plain BER written by the library"""
    det = dict(value=rep(v, 2000))
    o = B.build(T(), nid, v)
    try:
        data = ber_encoder.encode(o, omitEmptyOptionals=True)
    except Exception as e:
        return rec.bad('out-refused:' + where, '%s cannot be written as BER: %s' % (where, short(e)), **det)
    rec.see((nid, 'out', data) if nontrivial(nid, v) else None, out=1)
    det['octets'] = data.hex()
    try:
        x, rest = ber_decoder.decode(data, asn1Spec=T())
        d = B.diff(x, nid, v, loose=True)
        if d or rest:
            rec.bad('out-value:' + where, '%s written as BER is read back with %s' % (where, d or 'a remainder'), **det)
        elif der_encoder.encode(x) != want:
            rec.bad('out-der:' + where, '%s written as BER, read back and written as DER: %s' % (where, der_encoder.encode(x).hex()[:200]), **det)
    except Exception as e:
        rec.bad('out-lost:' + where, '%s written as BER cannot be read back: %s' % (where, short(e)), **det)
    try:
        R.decode(nid, data)
    except ref.Soft:
        rec.count('not decided')
    except ref.Bad as e:
        rec.bad('out-octets:' + where, '%s written as BER is not of the type (%s): %s' % (where, e, data.hex()[:200]), **det)


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 0, 6) for s in subs] + [(s, -1, dose(own, 100, 12)) for s in own])
    k = 0
    while ck.thorough and ck.elapsed() < 420:
        ck.map(job, [(s, 1 if k == 0 else -1, 40) for s in subs], 'r%d' % k, budget=480)
        k += 1
