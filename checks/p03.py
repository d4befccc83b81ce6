"""Structural rejection: messages damaged in their structure are refused, and
values that lack a mandatory component cannot be written."""
import mutate
import ref
from work import (AMBIGUOUS, B, R, S, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects,
                  values)

RULE = ('valid messages of every published type, damaged: a TLV dropped, duplicated, swapped with its neighbour, '
        'replaced or joined by a foreign one, retagged, reclassed or turned primitive/constructed; cut short at every '
        'position; messages of other types. An independent structural decoder says whether the result is still an '
        'encoding of the type. Non-trivial: it is not, and the octets differ from every other case of the type.')
MIN = 20000
ASSUMPTIONS = ['leniencies of the codec library are not counted (content and tag of a tagged ANY, repeated SET '
               'members, segments of odd type in constructed strings, BOOLEAN of several octets, primitive explicit '
               'tags): nothing is claimed about them',
               'a mandatory list or all-optional SEQUENCE that was never set counts as the empty one (codec library)',
               'rfc6402.ChangeSubjectName is left out: its published grammar is ambiguous']


def expect(nid, data):
    """'bad', 'soft' or the value"""
    try:
        v, rest = R.decode_one(nid, data)
        return 'ok', v
    except ref.Soft:
        return 'soft', None
    except (ref.Bad, RecursionError) as e:
        return 'bad', str(e)


def probe(rec, where, T, nid, data, op, origin):
    verdict, info = expect(nid, data)
    rec.count(verdict + ':' + op)
    if verdict == 'soft':
        return
    rec.see((nid, data) if verdict == 'bad' else None)
    try:
        o, rest = der_decoder.decode(data, asn1Spec=T())
    except Exception:
        if verdict == 'bad':
            rec.count('refused')
        return
    if verdict == 'bad':
        rec.bad('accepted:' + where, '%s accepted after %s although %s: %s' % (where, op, info, data.hex()[:200]),
                der=data.hex(), original=origin.hex(), op=op)
    elif R.conforms(nid, info):
        d = B.diff(o, nid, info, loose=True)
        if d:
            rec.bad('misread:' + where, '%s misread after %s: %s' % (where, op, d), der=data.hex())


def job(rec, item, rng):
    (m, k, nid), others, nval, nmut, ncut = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    vs = [v for v in values(nid, rng, 0, 4)]
    pick = vs[:2] + rng.sample(vs[2:], min(len(vs) - 2, nval)) if len(vs) > 2 else vs
    for v in pick:
        data = R.der(nid, v)
        if len(data) > 1500:
            continue
        for op, x in mutate.mutants(data, rng, nmut):
            probe(rec, where, T, nid, x, op, data)
        for x in mutate.cuts(data, rng, ncut):
            probe(rec, where, T, nid, x, 'truncation', data)
        if len(data) > 8:
            rec.sample(type=where, der=data.hex())
    for onid in others:
        g = ref.Gen(S, rng)
        x = R.der(onid, g.random(onid, 10))
        if len(x) < 2000:
            probe(rec, where, T, nid, x, 'other type', x)
    incomplete(rec, where, T, nid, rng, vs)


# components that the definition fills in itself
PRESET = {('rfc1157.Message', 'version'), ('rfc7191.siren_dn', 'sirenType')}


def emptyable(nid):
    """to the codec library an unset list is the empty list, and likewise a
    SEQUENCE that needs nothing else"""
    n = S.nodes[nid]
    if n['k'] in ('seqof', 'setof'):
        return ref.ok(n.get('c'), n['k'], [])
    if n['k'] in ('seq', 'set'):
        return all(g['q'] != 'm' or emptyable(g['t']) for g in n['f']) and ref.ok(
            n.get('c'), n['k'], dict((g['n'], 0) for g in n['f'] if g['q'] == 'm'))
    return False


def incomplete(rec, where, T, nid, rng, vs):
    """no octets for a value with a mandatory component left out, and no such
    thing as an undeclared component"""
    n = S.nodes[nid]
    if n['k'] not in ('seq', 'set', 'choice'):
        return
    try:
        T()['no-such-component-' + str(rng.randrange(99))] = 1
    except Exception:
        rec.count('undeclared refused')
    else:
        rec.bad('undeclared:' + where, '%s takes a component its definition does not have' % where)
    if n['k'] == 'choice':
        try:
            der_encoder.encode(T())
        except Exception:
            rec.see((nid, 'unset'), incomplete=1)
        else:
            rec.bad('unset:' + where, '%s with no alternative chosen can be encoded' % where)
        return
    full = max(vs, key=len)
    for f in n['f']:
        if f['q'] != 'm':
            continue
        if emptyable(f['t']) or (where, f['n']) in PRESET:
            continue
        x = dict(full)
        x.pop(f['n'], None)
        rec.see((nid, 'without', f['n']), incomplete=1)
        try:
            o = B.build(T(), nid, x)
            out = der_encoder.encode(o)
        except Exception:
            continue
        rec.bad('incomplete:%s.%s' % (where, f['n']), '%s without its mandatory %s is written as %s' % (
            where, f['n'], out.hex()[:200]), value=rep(x))


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    ids = sorted(set(s[2] for s in subs))
    rng = ck.rng('others')
    own = hot(subs)
    ck.map(job, [(s, rng.sample(ids, 6), 4, 14, 14) for s in subs] + [(s, rng.sample(ids, dose(own, 20, 6)), dose(own, 10, 4), dose(own, 60, 14), dose(own, 40, 14)) for s in own])
    if ck.thorough:
        rnd = 0
        while ck.elapsed() < 500 and rnd < 30:
            ck.map(job, [(s, rng.sample(ids, 40), 10, 60, 40) for s in subs], 'r%d' % rnd, budget=560)
            rnd += 1
