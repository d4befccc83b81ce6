"""Ready-made objects are what their standard defines and can be put to use."""
import ref
from work import B, R, S, bridge, der_decoder, der_encoder, module, rep, resolve, short
from p05 import everything, quirk

RULE = ('every ready-made object the package publishes (algorithm identifiers, attribute, extension, bag, content and '
        'name templates): each component it carries compared with the frozen content, its content type exercised with '
        'coverage and random values, the same identifier looked up in the registry, the template completed, written '
        'and read, the object put into components of messages of every type that has such a component. Distinct by '
        '(object, use, octets).')
MIN = 4000
ASSUMPTIONS = ['an OPTIONAL open component whose content is an empty SEQUENCE is left out by pyasn1 when written: '
               'not counted']


def carried(rec, where, o, p, path, bad):
    """what the object carries, through its public face; yields its
    components"""
    n = S.nodes[p['t']]
    yield path, o, p
    for name, q in sorted(p.get('f', {}).items()):
        for x in carried(rec, where, o[name], q, path + '.' + name, bad):
            yield x
    if n['k'] in ('seq', 'set') and 'f' in p:
        for f in n['f']:
            if f['n'] not in p['f'] and f['q'] != 'd':
                c = o.getComponentByName(f['n'], default=None, instantiate=False)
                if c is not None and c.isValue:
                    bad('extra', '%s.%s: the object carries %s, the standard\'s does not' % (path, f['n'], short(c, 80)))
    for i, q in enumerate(p.get('e', ())):
        for x in carried(rec, where, o[i], q, '%s[%d]' % (path, i), bad):
            yield x


def job(rec, item, rng):
    m, k, p, holders, nrand = item
    o = resolve(rec, m, k)
    if o is None:
        return
    where = '%s.%s' % (m, k)

    def bad(kind, what, **detail):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)
    g = ref.Gen(S, rng)
    try:
        for path, c, q in list(carried(rec, where, o, p, '', bad)):
            component(rec, g, rng, where, path, c, q, nrand, bad)
        n = S.nodes[p['t']]
        ids = [f for f in n.get('f', ()) if 'ot' in f and f['ot'][0] in p.get('f', {}) and f['n'] in p['f']]
        for f in ids:
            template(rec, g, rng, where, o, p, n, f, nrand, bad)
        if 'der' in p:
            for h in holders:
                inside(rec, g, where, o, p, h, bad)
    except Exception as e:
        bad('use', 'cannot be used: %s' % short(e))


def component(rec, g, rng, where, path, c, q, nrand, bad):
    nid = q['t']
    k = S.nodes[nid]['k']
    if 'der' in q:
        want = bytes.fromhex(q['der'])
        rec.see((where, path, want), carried=1)
        got = der_encoder.encode(c)
        if got != want:
            bad('content', '%s is written as %s, the standard says %s' % (path or 'it', got.hex()[:200], want.hex()[:200]))
            return
        o, rest = der_decoder.decode(want, asn1Spec=c.clone())
        d = B.diff(o, nid, R.decode(nid, want))
        if d or rest:
            bad('content', '%s read back with %s' % (path or 'it', d or 'octets left over'))
        if k not in ref.CONSTRUCTED:
            d = B.diff(c, nid, R.decode(nid, want))
            if d:
                bad('content', '%s reads %s' % (path or 'it', d))
    else:
        if k not in ref.CONSTRUCTED and c.isValue:
            bad('extra', '%s: the object carries the value %s, the standard\'s does not' % (path, short(c, 80)))
        # an empty place for content of this type
        probe(rec, g, rng, where, path, c, nid, nrand, bad)


def probe(rec, g, rng, where, path, c, nid, nrand, bad):
    for i in range(nrand):
        v = g.random(nid, 30) if i else g.minimal(nid)
        want = R.der(nid, v)
        rec.see((where, path, want), content=1)
        det = dict(der=want.hex(), value=rep(v, 1000))
        try:
            o, rest = der_decoder.decode(want, asn1Spec=c)
        except Exception as e:
            bad('refused', '%s is no place for %s: %s' % (path or 'it', rep(v), short(e)), **det)
            return
        d = B.diff(o, nid, v)
        if d or rest:
            bad('type', '%s reads %s' % (path or 'it', d or 'octets left over'), **det)
            return
        if der_encoder.encode(o) != want:
            bad('octets', '%s writes %s' % (path or 'it', der_encoder.encode(o).hex()[:200]), **det)
            return


def contents(p, f):
    """content types of the open component in the object"""
    q = p['f'][f['n']]
    return [x['t'] for x in q['e']] if 'e' in q else [q['t']]


def template(rec, g, rng, where, o, p, n, f, nrand, bad):
    gov, mp = f['ot']
    if 'der' not in p['f'][gov]:
        return
    gid = R.decode(p['f'][gov]['t'], bytes.fromhex(p['f'][gov]['der']))
    lst = 'e' in p['f'][f['n']]
    nid = contents(p, f)[0]
    mm, mk = mp.split('.', 1)
    reg = getattr(module(mm), mk, {})
    ent = S.maps[mp].get('.'.join(map(str, gid)))
    try:
        C = reg[o[gov]]
    except KeyError:
        C = None
        if ent:
            bad('registry', 'its identifier is not registered (%s)' % mp)
    if C is not None and ent and ent['t'] == nid:
        # what the registry reads is what the template holds
        probe(rec, g, rng, where, 'registry', C, nid, nrand, bad)
    g = ref.Gen(S, rng, True)
    place = o[f['n']][0] if lst else o[f['n']]
    for i in range(nrand):
        c = g.random(nid, 20) if i else g.minimal(nid)
        v = {}
        x = ref.Open(nid, c)
        for y in n['f']:
            if y['n'] == gov:
                v[gov] = gid
            elif y['n'] == f['n']:
                v[f['n']] = [x] if lst else x
            elif y['q'] == 'm':
                v[y['n']] = g.minimal(y['t'])
        if quirk(g, p['t'], v):
            continue
        want = R.der(p['t'], v)
        rec.see((where, 'complete', want), completed=1)
        det = dict(der=want.hex(), value=rep(v, 1000))
        rest = dict((a, b) for a, b in v.items() if a not in (gov, f['n']))
        t = B.build(o.clone(), p['t'], rest) if rest else o.clone()
        t[gov] = o[gov]
        content = B.build(place.clone(), nid, c)
        if lst:
            t[f['n']][0] = content
        else:
            t[f['n']] = content
        got = der_encoder.encode(t)
        if got != want:
            bad('complete', 'completed with %s it is written as %s instead of %s' % (rep(c), got.hex()[:200], want.hex()[:200]), **det)
            return
        if ent and ent['t'] == nid:
            t, _ = der_decoder.decode(want, asn1Spec=o.clone(), decodeOpenTypes=True)
            d = B.diff(t, p['t'], v, opened=True)
            if d:
                bad('complete-read', 'completed with %s it reads %s' % (rep(c), d), **det)
                return
    rec.sample(object=where, completed=want.hex())


def inside(rec, g, where, o, p, h, bad):
    """the object as a component of a message"""
    (m, k, nid), fname = h
    T = getattr(module(m), k)
    v = dict(g.minimal(nid))
    want = bytes.fromhex(p['der'])
    v[fname] = R.decode(p['t'], want)
    n = S.nodes[nid]
    v = dict((f['n'], v[f['n']]) for f in n['f'] if f['n'] in v)
    msg = R.der(nid, v)
    rec.see((where, m, k, fname), inside=1)
    try:
        t = B.build(T(), nid, dict((a, b) for a, b in v.items() if a != fname))
        t[fname] = o
        got = der_encoder.encode(t)
        x, _ = der_decoder.decode(msg, asn1Spec=T())
        again = der_encoder.encode(x[fname])
    except Exception as e:
        bad('inside', 'as %s of %s.%s: %s' % (fname, m, k, short(e)))
        return
    if got != msg:
        bad('inside', 'as %s of %s.%s it is written as %s instead of %s' % (fname, m, k, got.hex()[:200], msg.hex()[:200]))
    if again != want:
        bad('inside', 'as %s of %s.%s it reads back as %s' % (fname, m, k, again.hex()[:200]))


def run(ck):
    everything()
    places = {}
    for s in S.types():
        n = S.nodes[s[2]]
        if n['k'] in ('seq', 'set'):
            for f in n['f']:
                if f['q'] in ('m', 'o') and S.nodes[f['t']]['k'] != 'any' and resolve(ck.rec, s[0], s[1]):
                    places.setdefault(f['t'], []).append((s, f['n']))
    rng = ck.rng('places')
    items = []
    for m in sorted(S.modules):
        for k, p in sorted(S.modules[m]['templates'].items()):
            hs = places.get(p['t'], []) if 'der' in p else []
            items.append((m, k, p, rng.sample(hs, min(len(hs), ck.pick(12, 100))), ck.pick(8, 60)))
    ck.rec.count('objects', len(items))
    ck.map(job, items)
    r = 0
    while ck.thorough and ck.elapsed() < 200 and r < 40:
        ck.map(job, [i[:4] + (150,) for i in items], 'r%d' % r)
        r += 1
