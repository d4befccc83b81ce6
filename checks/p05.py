"""Open types: the registered identifier selects the type of the content."""
import pkgutil

import ref
from work import (AMBIGUOUS, B, R, S, bridge, der_decoder, der_encoder, module, rep, short, spread, subjects)

RULE = ('every (holder type, open field, registered identifier) triple with minimal and random content, random nested '
        'values of every type that contains an open field, unregistered identifiers, damaged content, contents '
        'assigned as typed objects, per-call registries. Decoded with resolution on and off; the content is compared '
        'with an independent model of its registered type, re-encoded and compared octet by octet. Non-trivial: at '
        'least one open field was resolved; distinct by (holder, octets, mode).')
MIN = 15000
ASSUMPTIONS = ['identifiers registered twice with different types by different modules (see C08 findings) are judged '
               'with all modules imported in alphabetical order',
               'an OPTIONAL open field whose typed content is an empty SEQUENCE or list is left out by the codec '
               'library when written again: not counted']


def everything():
    import pyasn1_modules
    names = sorted(m.name for m in pkgutil.iter_modules(pyasn1_modules.__path__))
    for n in names:
        module(n)
    return names


_has = {}


def opens(nid):
    if nid not in _has:
        _has[nid] = False
        n = S.nodes[nid]
        _has[nid] = any('ot' in f or opens(f['t']) for f in n.get('f', ())) or bool(n.get('e') and opens(n['e']))
    return _has[nid]


def each_open(nid, v):
    """yields (field, holder node, Open) for all typed contents inside v"""
    n = S.nodes[nid]
    k = n['k']
    if isinstance(v, ref.Open):
        for x in each_open(v.nid, v.val):
            yield x
    elif k == 'choice':
        for x in each_open(R.field(n, v[0])['t'], v[1]):
            yield x
    elif k in ('seqof', 'setof'):
        for y in v:
            for x in each_open(n['e'], y):
                yield x
    elif k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v:
                y = v[f['n']]
                h = S.nodes[f['t']]
                if h['k'] in ('seqof', 'setof'):
                    h = S.nodes[h['e']]
                for z in y if isinstance(y, list) else [y]:
                    if isinstance(z, ref.Open):
                        yield f, h, z
                for x in each_open(f['t'], y):
                    yield x


def lostwrap(h, o):
    e = S.nodes[o.nid]
    return h['k'] == 'octets' and e['k'] == 'octets' and e['t'] == h['t']


def quirk(g, nid, v):
    """the typed content is one the codec library is known to write wrongly"""
    for f, h, o in each_open(nid, v):
        if f['q'] == 'o' and g.empty(o.nid, o.val):
            return 'empty'
        if lostwrap(h, o):
            return 'lostwrap'
    return None


def nopen(nid, v):
    return sum(1 for x in each_open(nid, v))


def content(nid, f, key, c):
    """a value of the open field"""
    fn = S.nodes[f['t']]
    x = ref.Open(key, c)
    return [x] * max(1, min(G.seq_sizes(fn))) if fn['k'] in ('seqof', 'setof') else x


G = ref.Gen(S, __import__('random').Random(0), True)


def decode(T, data, **kw):
    return der_decoder.decode(data, asn1Spec=T(), **kw)


def both(rec, g, where, T, nid, v, bad):
    """resolution on and off"""
    data = R.der(nid, v)
    if len(data) > 30000:
        return
    q = quirk(g, nid, v)
    detail = dict(value=rep(v, 2000), der=data.hex())
    n = nopen(nid, v)
    rec.see((nid, data, 'on') if n else None, contents=n)
    try:
        o, rest = decode(T, data, decodeOpenTypes=True)
    except Exception as e:
        bad('refused', 'content of its registered type refused: %s' % short(e), **detail)
        return
    d = B.diff(o, nid, v, opened=True)
    if d:
        bad('value', 'resolved content differs: %s' % d, **detail)
    elif len(data) > 12:
        rec.sample(type=where, der=data.hex())
    rewrite(rec, o, data, q, bad, 'on', detail, nid, v)
    rec.see((nid, data, 'off') if n else None)
    try:
        o, rest = decode(T, data)
    except Exception as e:
        bad('raw-refused', 'refused with resolution off: %s' % short(e), **detail)
        return
    d = B.diff(o, nid, v)
    if d:
        bad('raw-value', 'with resolution off the content is not handed over untouched: %s' % d, **detail)
    rewrite(rec, o, data, None, bad, 'off', detail, nid, v)


def stripped(nid, v):
    """the octets when typed OCTET STRING content loses its own header"""
    class Lossy(ref.Ref):
        def body(self, n, v, st):
            if isinstance(v, ref.Open) and lostwrap(n, v):
                return v.val, False
            return ref.Ref.body(self, n, v, st)
    return Lossy(S).der(nid, v)


def rewrite(rec, o, data, q, bad, mode, detail, nid, v):
    try:
        a = der_encoder.encode(o)
    except Exception as e:
        bad('rewrite-' + mode, 'cannot be written again: %s' % short(e), **detail)
        return
    if a == data:
        rec.count('rewritten ' + mode)
    elif q == 'empty':
        rec.count('rewrite not judged')
    elif q == 'lostwrap' and a == stripped(nid, v):
        rec.bad('unwrapped-octet-string-content', 'an OCTET STRING holding a registered OCTET STRING type loses the '
                'inner header when written again: %s -> %s' % (data.hex()[:120], a.hex()[:120]), **detail)
    else:
        bad('octets-' + mode, 'written again as %s' % a.hex()[:300], **detail)


def pair(rec, item, rng):
    """one holder field, one registered identifier"""
    (m, k, nid), fname, key, nrand = item
    T = getattr(module(m), k)
    n = S.nodes[nid]
    f = R.field(n, fname)
    gov, mp = f['ot']
    ent = S.maps[mp][key]['t']
    g = ref.Gen(S, rng, True)
    where = '%s.%s[%s]' % (m, k, key)

    def bad(kind, what, **detail):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)
    for c in [g.minimal(ent)] + [g.random(ent, 15) for _ in range(nrand)]:
        v = dict(g.minimal(nid))
        v[gov] = g.keyval(n, gov, key)
        v[fname] = content(nid, f, ent, c)
        v = dict((x['n'], v[x['n']]) for x in n['f'] if x['n'] in v)
        both(rec, g, where, T, nid, v, bad)
    # absent
    if f['q'] == 'o':
        w = dict(v)
        del w[fname]
        both(rec, g, where, T, nid, w, bad)
    # content that is not of the registered type
    damage(rec, g, where, T, nid, n, f, gov, key, ent, v, rng, bad)
    typed(rec, g, where, T, nid, n, f, v, mp, key, bad)


def damage(rec, g, where, T, nid, n, f, gov, key, ent, v, rng, bad):
    raw = R.der(ent, g.minimal(ent))
    wrongs = [raw[:-1] if len(raw) > 2 else b'\x04', b'\xde\x01A', b'\xbf\x1f\x03\x02\x01\x05']
    en = S.nodes[ent]
    for w in wrongs:
        try:
            R.decode_one(ent, w)
            continue
        except ref.Soft:
            continue
        except ref.Bad:
            pass
        fn = S.nodes[f['t']]
        lst = fn['k'] in ('seqof', 'setof')
        hold = S.nodes[fn['e']] if lst else fn
        if en['k'] == 'any' or (hold['k'] == 'any' and w is wrongs[0]):
            continue
        x = dict(v)
        x[f['n']] = [w] * max(1, min(g.seq_sizes(fn))) if lst else w
        data = R.der(nid, x)
        rec.see((nid, data, 'damaged'))
        try:
            decode(T, data, decodeOpenTypes=True)
        except Exception:
            rec.count('wrong content refused')
        else:
            bad('accepted', 'content %s accepted although the registered type is another' % w.hex(), der=data.hex())
        try:
            o, _ = decode(T, data)
            if der_encoder.encode(o) != data:
                bad('off-octets', 'with resolution off %s is altered' % data.hex(), der=data.hex())
        except Exception as e:
            bad('off-refused', 'with resolution off, content is still judged: %s' % short(e), der=data.hex())


def typed(rec, g, where, T, nid, n, f, v, mp, key, bad):
    """assigning an object of the registered type to the open field"""
    if quirk(g, nid, v):
        return
    mm, mk = mp.split('.', 1)
    try:
        reg = getattr(module(mm), mk)
        gv = g.keyval(n, f['ot'][0], key)
        gt = S.nodes[R.field(n, f['ot'][0])['t']]
        C = reg[bridge.univ.Integer(gv) if gt['k'] in ('int', 'enum') else bridge.univ.ObjectIdentifier(gv)]
    except Exception as e:
        bad('registry', 'the registry has no entry: %s' % short(e))
        return
    x = v[f['n']]
    xs = x if isinstance(x, list) else [x]
    data = R.der(nid, v)
    rec.see((nid, data, 'typed'))
    try:
        o = B.build(T(), nid, dict((a, b) for a, b in v.items() if a != f['n']))
        objs = [B.build(C.clone(), y.nid, y.val) for y in xs]
        if isinstance(x, list):
            for i, y in enumerate(objs):
                o[f['n']][i] = y
        else:
            o[f['n']] = objs[0]
        a = der_encoder.encode(o)
    except Exception as e:
        bad('assign', 'an object of the registered type is refused: %s' % short(e), value=rep(v, 2000))
        return
    if a != data:
        bad('assign-octets', 'an object of the registered type is written as %s instead of %s' % (
            a.hex()[:200], data.hex()[:200]), value=rep(v, 2000))


def nested(rec, item, rng):
    (m, k, nid), nrand = item
    T = getattr(module(m), k)
    g = ref.Gen(S, rng, True)
    where = '%s.%s' % (m, k)

    def bad(kind, what, **detail):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)
    for i in range(nrand):
        v = g.random(nid, rng.choice([10, 40, 90]))
        both(rec, g, where, T, nid, v, bad)


def percall(rec, item, rng):
    """a registry passed to one call rules that call and no other"""
    (m, k, nid), fname = item
    T = getattr(module(m), k)
    n = S.nodes[nid]
    f = R.field(n, fname)
    gov, mp = f['ot']
    g = ref.Gen(S, rng, True)
    where = '%s.%s' % (m, k)
    keys = sorted(S.maps.get(mp) or {})
    fn = S.nodes[f['t']]
    lst = fn['k'] in ('seqof', 'setof')
    priv = g.unregistered(n, gov, S.maps.get(mp) or {})
    mine = bytes.fromhex('3006020107040141')
    Q = bridge.univ.Sequence(componentType=__import__('pyasn1.type.namedtype', fromlist=['x']).NamedTypes(
        __import__('pyasn1.type.namedtype', fromlist=['x']).NamedType('a', bridge.univ.Integer()),
        __import__('pyasn1.type.namedtype', fromlist=['x']).NamedType('b', bridge.univ.OctetString())))
    gt = S.nodes[R.field(n, gov)['t']]
    G1 = (lambda x: bridge.univ.Integer(x)) if gt['k'] in ('int', 'enum') else bridge.univ.ObjectIdentifier

    def val(keyv, raw):
        v = dict(g.minimal(nid))
        v[gov] = keyv
        v[fname] = [raw] * max(1, min(g.seq_sizes(fn))) if lst else raw
        return R.der(nid, dict((x['n'], v[x['n']]) for x in n['f'] if x['n'] in v))

    def got(o):
        c = o[fname]
        return c[0] if lst else c

    def bad(kind, what, **detail):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)
    before = registries()
    data = val(priv, mine)
    rec.see((nid, data, 'percall'))
    try:
        o, _ = decode(T, data, openTypes={G1(priv): Q}, decodeOpenTypes=True)
        c = got(o)
        if isinstance(c, bridge.univ.Any) or c['a'] != 7 or bytes(c['b']) != b'A':
            bad('percall', 'the registry given to the call is not used', der=data.hex())
        o, _ = decode(T, data, decodeOpenTypes=True)
        if bytes(got(o)) != mine:
            bad('percall-after', 'a registry given to one call shows in the next', der=data.hex())
    except Exception as e:
        bad('percall-error', 'with a registry given to the call: %s' % short(e), der=data.hex())
    for key in rng.sample(keys, min(2, len(keys))):
        kv = g.keyval(n, gov, key)
        ent = S.maps[mp][key]['t']
        data = val(kv, mine)
        rec.see((nid, data, 'override'))
        try:
            o, _ = decode(T, data, openTypes={G1(kv): Q})
            c = got(o)
            if isinstance(c, bridge.univ.Any) or c['a'] != 7 or bytes(c['b']) != b'A':
                bad('override', 'the registry given to the call does not take precedence', der=data.hex())
        except Exception as e:
            bad('override-error', 'with a registry given to the call: %s' % short(e), der=data.hex())
        c = g.minimal(ent)
        v = dict(g.minimal(nid))
        v[gov] = kv
        v[fname] = content(nid, f, ent, c)
        v = dict((x['n'], v[x['n']]) for x in n['f'] if x['n'] in v)
        both(rec, g, where, T, nid, v, bad)
    if registries() != before:
        bad('registry-changed', 'decoding changed the module registries')


def live(rec, item, rng):
    """a registration made by the program is seen wherever the registry is consulted, until it is taken back"""
    name, holders = item
    mm, mk = name.split('.', 1)
    reg = getattr(module(mm), mk, None)
    if reg is None:
        return
    from pyasn1.type import namedtype as nt
    Q = bridge.univ.Sequence(componentType=nt.NamedTypes(nt.NamedType('a', bridge.univ.Integer()), nt.NamedType('b', bridge.univ.OctetString())))
    mine = bytes.fromhex('3006020107040141')
    g = ref.Gen(S, rng, True)
    known = S.maps[name]
    before = registries()
    for (m, k, nid), fname in holders:
        T = getattr(module(m), k)
        n = S.nodes[nid]
        f = R.field(n, fname)
        gov = f['ot'][0]
        fn = S.nodes[f['t']]
        lst = fn['k'] in ('seqof', 'setof')
        gt = S.nodes[R.field(n, gov)['t']]
        where = '%s.%s' % (m, k)
        keys = sorted(known)
        priv = g.unregistered(n, gov, known)
        for kv in [priv] + [g.keyval(n, gov, key) for key in rng.sample(keys, min(1, len(keys)))]:
            v = dict(g.minimal(nid))
            v[gov] = kv
            v[fname] = [mine] * max(1, min(g.seq_sizes(fn))) if lst else mine
            v = dict((x['n'], v[x['n']]) for x in n['f'] if x['n'] in v)
            data = R.der(nid, v)
            i = bridge.univ.Integer(kv) if gt['k'] in ('int', 'enum') else bridge.univ.ObjectIdentifier(kv)
            old = reg.get(i)
            rec.see((nid, data, 'live'), live=1)
            if rng.random() < 0.5:
                try:
                    decode(T, data, decodeOpenTypes=True)
                except Exception:
                    pass
            try:
                reg[i] = Q
                o = decode(T, data, decodeOpenTypes=True)[0]
                c = o[fname][0] if lst else o[fname]
                if isinstance(c, bridge.univ.Any) or c['a'] != 7 or bytes(c['b']) != b'A':
                    rec.bad('live:' + where, '%s: what the program registers in %s is not used for %s' % (where, name, fname), der=data.hex())
                elif der_encoder.encode(o) != data:
                    rec.bad('live-written:' + where, '%s: content of a type the program registered is altered' % where, der=data.hex())
            except Exception as e:
                rec.bad('live-error:' + where, '%s: with a registration of its own in %s: %s' % (where, name, short(e)), der=data.hex())
            finally:
                if old is None:
                    reg.pop(i, None)
                else:
                    reg[i] = old
            if old is None:
                try:
                    o = decode(T, data, decodeOpenTypes=True)[0]
                    c = o[fname][0] if lst else o[fname]
                    if bytes(c) != mine:
                        rec.bad('live-after:' + where, '%s: a registration taken back from %s is still used' % (where, name), der=data.hex())
                except Exception as e:
                    rec.bad('live-after:' + where, '%s: after a registration was taken back from %s: %s' % (where, name, short(e)), der=data.hex())
    if registries() != before:
        rec.bad('live-registry:' + name, 'decoding changed the module registries')


def near(key, known):
    """identifiers around a registered one that are not registered"""
    if '.' not in key:
        return [str(int(key) + d) for d in (1, -1, 256, 1000) if str(int(key) + d) not in known and int(key) + d >= 0]
    a = key.split('.')
    r = [a + ['0'], a + ['1'], a + ['1', '1'], a[:-1], a[:-1] + [str(int(a[-1]) + 1)], a[:-1] + [str(int(a[-1]) + 128)],
         a[:-1] + [str(max(0, int(a[-1]) - 1))], a[:-1] + ['0', a[-1]], a[:2] + a[3:], ['1', '2'] + a]
    return [x for x in ('.'.join(y) for y in r) if x not in known and x.count('.') > 1]


def identifier(key):
    return bridge.univ.ObjectIdentifier(key) if '.' in key else bridge.univ.Integer(int(key))


def strangers(rec, item, rng):
    """content that would be of a registered type, under identifiers that
    only resemble the registered one"""
    (m, k, nid), fname, count = item
    T = getattr(module(m), k)
    n = S.nodes[nid]
    f = R.field(n, fname)
    gov, mp = f['ot']
    known = S.maps.get(mp) or {}
    g = ref.Gen(S, rng, True)
    fn = S.nodes[f['t']]
    lst = fn['k'] in ('seqof', 'setof')
    gt = S.nodes[R.field(n, gov)['t']]
    where = '%s.%s' % (m, k)
    keys = sorted(known)
    for key in rng.sample(keys, min(count, len(keys))):
        ent = known[key]['t']
        raw = R.der(ent, g.random(ent, 5))
        if not raw:
            continue
        for x in near(key, known):
            kv = tuple(int(y) for y in x.split('.')) if '.' in x else int(x)
            if not ref.ok(gt.get('c'), gt['k'], kv) or (gt['k'] in ('int', 'enum')) == ('.' in x):
                continue
            v = dict(g.minimal(nid))
            v[gov] = kv
            v[fname] = [raw] * max(1, min(g.seq_sizes(fn))) if lst else raw
            v = dict((y['n'], v[y['n']]) for y in n['f'] if y['n'] in v)
            if not R.conforms(nid, v):
                continue
            data = R.der(nid, v)
            rec.see((nid, data, 'stranger'), stranger=1)
            try:
                o = decode(T, data, decodeOpenTypes=True)[0]
                c = o[fname][0] if lst else o[fname]
                if type(c) not in (bridge.univ.Any, bridge.univ.OctetString) and not isinstance(c, (bridge.univ.Any, bridge.univ.OctetString)) or bytes(c) != raw:
                    rec.bad('stranger:%s[%s]' % (where, x), '%s: content under %s, which is not registered, is read as %s' % (
                        where, x, type(c).__name__), der=data.hex())
                elif der_encoder.encode(o) != data:
                    rec.bad('stranger:%s[%s]' % (where, x), '%s: content under %s is altered' % (where, x), der=data.hex())
            except Exception as e:
                rec.bad('stranger:%s[%s]' % (where, x), '%s: content under %s, which is not registered, is judged: %s' % (
                    where, x, short(e)), der=data.hex())


def registries():
    out = []
    for name in sorted(S.maps):
        mm, mk = name.split('.', 1)
        reg = getattr(module(mm), mk, None)
        if reg is not None:
            out.append((name, sorted((str(a), id(b)) for a, b in reg.items())))
    return out


def direct(rec, item, rng):
    """the registries themselves, as applications consult them"""
    name, nrand = item
    mm, mk = name.split('.', 1)
    reg = getattr(module(mm), mk, None)
    if reg is None:
        rec.bad('missing:' + name, 'registry %s is gone' % name)
        return
    g = ref.Gen(S, rng, True)
    for key, e in sorted(S.maps[name].items()):
        kv = tuple(int(x) for x in key.split('.')) if '.' in key else int(key)
        try:
            C = reg[bridge.univ.ObjectIdentifier(kv) if isinstance(kv, tuple) else bridge.univ.Integer(kv)]
        except KeyError:
            rec.bad('unregistered:%s[%s]' % (name, key), '%s no longer knows %s' % (name, key))
            continue
        nid = e['t']
        where = '%s[%s]' % (name, key)
        for x in near(key, S.maps[name]):
            i = identifier(x)
            rec.see((name, x, 'stranger'), stranger=1)
            try:
                c = reg[i]
            except KeyError:
                c = None
            if c is not None or i in reg or reg.get(i) is not None:
                rec.bad('stranger:%s[%s]' % (name, x), '%s answers for %s, which is not registered' % (name, x))

        def bad(kind, what, **detail):
            rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)
        for v in [g.minimal(nid)] + [g.random(nid, 15) for _ in range(nrand)]:
            data = R.der(nid, v)
            rec.see((name, key, data), direct=1)
            try:
                o, rest = der_decoder.decode(data, asn1Spec=C)
            except Exception as ex:
                bad('direct-refused', 'content of its registered type refused: %s' % short(ex), der=data.hex())
                continue
            d = B.diff(o, nid, v)
            if d or rest:
                bad('direct-value', 'content read differently: %s' % (d or 'octets left over'), der=data.hex())


def run(ck):
    everything()
    subs = [s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS]
    holders = [(s, f['n'], f['ot'][1]) for s in subs for f in S.nodes[s[2]].get('f', ()) if 'ot' in f]
    pairs = [(s, f, key, ck.pick(2, 3)) for s, f, mp in holders for key in sorted(S.maps.get(mp) or {})]
    ck.rec.count('holders', len(holders))
    ck.rec.count('pairs', len(pairs))
    ck.map(direct, [(n, 4) for n in sorted(S.maps)], 'direct', chunk=1)
    if not ck.thorough:
        # the many holders that share one registry take turns
        rng = ck.rng('pairs')
        pairs = [(s, f, key, n if rng.random() < 0.4 else 0) for s, f, key, n in pairs]
    ck.map(pair, spread(pairs, ck.seed), 'pairs')
    ck.map(strangers, [(s, f, ck.pick(3, 1000)) for s, f, mp in holders], 'strangers')
    ck.map(percall, [(s, f) for s, f, mp in holders], 'percall')
    ck.map(live, [(name, [(s, f) for s, f, mp in holders if mp == name]) for name in sorted(S.maps)], 'live', chunk=1)
    ck.map(nested, spread([(s, ck.pick(6, 10)) for s in subs if opens(s[2])], ck.seed), 'nested')
    if ck.thorough:
        rnd = 0
        while ck.elapsed() < 480 and rnd < 40:
            ck.map(nested, spread([(s, 30) for s in subs if opens(s[2])], ck.seed), 'r%d' % rnd, budget=540)
            ck.map(pair, spread([(s, f, key, 6) for s, f, key, n in pairs], rnd), 'p%d' % rnd, budget=540)
            rnd += 1
