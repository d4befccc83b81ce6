"""Every value can be shown whole, as text and as plain Python data."""
import harness  # noqa: F401
import ref
from pyasn1.codec.native import encoder as native_encoder
from ref import CONSTRUCTED, Open
from work import AMBIGUOUS, B, R, S, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects, swell, values

RULE = ('for each published type: values put together and values read (open content resolved and not) are printed and '
        'converted to plain Python data; the text must name every component and show every number, identifier, text, '
        'octet string and time in order, the data '
        'must be exactly the value, key by published key. Non-trivial: the value has content; distinct by (type, octets, form).')
MIN = 8000
ASSUMPTIONS = ['components with defaults may be left out of the plain data or spelled out',
               'values are not made from plain data: that decoder of the codec library does not read bit strings and more']


CODEC = {'utf8': 'utf-8', 'bmp': 'utf-16-be', 'universal': 'utf-32-be'}


def plain(nid, v, spell=False):
    """the value as plain Python data"""
    if isinstance(v, Open):
        return plain(v.nid, v.val, spell)
    n = S.nodes[nid]
    k = n['k']
    if k == 'choice':
        return {v[0]: plain(R.field(n, v[0])['t'], v[1], spell)}
    if k in ('seq', 'set'):
        return dict((f['n'], plain(f['t'], v[f['n']], spell)) for f in n['f'] if f['n'] in v)
    if k in ('seqof', 'setof'):
        return [plain(n['e'], x, spell) for x in v]
    if k == 'oid':
        return '.'.join(str(x) for x in v)
    return v


def same(nid, got, v, path=''):
    """where plain data differs from what the value is"""
    if isinstance(v, Open):
        return same(v.nid, got, v.val, path + '<open>')
    n = S.nodes[nid]
    k = n['k']
    if k == 'choice':
        if not isinstance(got, dict) or list(got) != [v[0]]:
            return '%s: alternative %s shown as %s' % (path, v[0], short(got, 80))
        return same(R.field(n, v[0])['t'], got[v[0]], v[1], path + '.' + v[0])
    if k in ('seq', 'set'):
        if not isinstance(got, dict):
            return '%s: shown as %s' % (path, type(got).__name__)
        known = [f['n'] for f in n['f']]
        if [x for x in got if x not in known]:
            return '%s: has %s' % (path, [x for x in got if x not in known])
        if list(got) != [x for x in known if x in got]:
            return '%s: components out of order: %s' % (path, list(got))
        for f in n['f']:
            if f['n'] in v:
                if f['n'] not in got:
                    d = f['q'] == 'd' and R.norm(f['t'], v[f['n']]) == R.norm(f['t'], R.default(f))
                    if d or (f['q'] == 'o' and S.nodes[f['t']]['k'] in CONSTRUCTED and not v[f['n']]):
                        continue
                    return '%s.%s is left out' % (path, f['n'])
                d = same(f['t'], got[f['n']], v[f['n']], path + '.' + f['n'])
            elif f['n'] in got:
                d = None
                if f['q'] == 'd':
                    d = same(f['t'], got[f['n']], R.default(f), path + '.' + f['n'])
                elif not blank(f['t'], got[f['n']]):
                    return '%s.%s is absent, but shown' % (path, f['n'])
            else:
                d = None
            if d:
                return d
        return None
    if k in ('seqof', 'setof'):
        if not isinstance(got, list) or len(got) != len(v):
            return '%s: %d elements shown as %s' % (path, len(v), short(got, 80))
        if k == 'setof' and len(v) > 1:
            v = sorted(v, key=lambda x: R.der(n['e'], x))
            alt = [same(n['e'], a, b, path) for a, b in zip(got, v)]
            if not [x for x in alt if x]:
                return None
            left = list(v)
            for a in got:
                for i, b in enumerate(left):
                    if not same(n['e'], a, b):
                        del left[i]
                        break
                else:
                    return [x for x in alt if x][0]
            return None
        for i, (a, b) in enumerate(zip(got, v)):
            d = same(n['e'], a, b, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    want = plain(nid, v)
    if k in ('int', 'enum', 'bool'):
        ok = int(got) == int(want) and isinstance(got, int)
    elif k == 'null':
        ok = got is None or got == ''
    elif k in ('octets', 'any'):
        # a default may hold typed parameters
        ok = isinstance(got, bytes) and got == want or k == 'any' and got is None and want == b'\x05\x00'
    elif k == 'bits':
        # pyasn1 shows no bits as "0"
        ok = got == want or want == '' and got == '0'
    else:
        # text is given as it is or in the octets of its encoding
        ok = got == want if isinstance(got, str) else got in [want.encode(c) for c in (CODEC.get(k, 'iso-8859-1'),)]
    return None if ok else '%s: %s shown as %s' % (path, short(repr(want), 80), short(repr(got), 80))


def blank(nid, got):
    """to pyasn1 a SEQUENCE that needs nothing is there once looked at"""
    n = S.nodes[nid]
    if n['k'] in ('seqof', 'setof'):
        return got == []
    return n['k'] in ('seq', 'set') and isinstance(got, dict) and same(nid, got, {}) is None


def tokens(nid, v):
    """what the text must hold, in order"""
    if isinstance(v, Open):
        for t in tokens(v.nid, v.val):
            yield t
        return
    n = S.nodes[nid]
    k = n['k']
    if k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v:
                if S.nodes[f['t']]['k'] in ('seqof', 'setof') and not v[f['n']]:
                    continue
                yield f['n'] + '='
                for t in tokens(f['t'], v[f['n']]):
                    yield t
    elif k == 'choice':
        yield v[0] + '='
        for t in tokens(R.field(n, v[0])['t'], v[1]):
            yield t
    elif k in ('seqof', 'setof'):
        for x in v:
            for t in tokens(n['e'], x):
                yield t
    elif k in ('int', 'enum'):
        nv = n.get('nv') or {}
        names = [a for a, b in nv.items() if b == v]
        yield names[0] if len(names) == 1 else '' if names else str(v)
    elif k == 'oid':
        yield '.'.join(str(x) for x in v)
    elif k == 'bool':
        yield 'True' if v else 'False'
    elif k in ('octets', 'any'):
        if v and any(c < 32 or c > 126 for c in v):
            yield '0x' + v.hex()
        else:
            yield v.decode('latin-1')
    elif k in ('bits', 'null'):
        pass
    else:
        yield v


def lacking(text, wanted):
    pos = 0
    for i, t in enumerate(wanted):
        j = text.find(t, pos)
        if j < 0:
            return t
        pos = j + len(t)
    return None


def ordered(nid, v):
    """the value with every SET OF in the order it has on the wire"""
    return R.decode(nid, R.der(nid, v))


def has(nid, kinds, seen=None):
    seen = set() if seen is None else seen
    if nid in seen:
        return False
    seen.add(nid)
    n = S.nodes[nid]
    return n['k'] in kinds or any(has(f['t'], kinds, seen) for f in n.get('f', ())) or bool(n.get('e')) and has(n['e'], kinds, seen)


def show(rec, where, form, o, nid, v, bad, text=True):
    if text:
        try:
            t = o.prettyPrint()
            u = str(o) if S.nodes[nid]['k'] in CONSTRUCTED else t
        except Exception as e:
            return bad('text', '%s cannot be printed: %s' % (form, short(e)))
        if u != t and S.nodes[nid]['k'] in CONSTRUCTED:
            bad('text', '%s: str() and prettyPrint() differ' % form)
        lack = lacking(t, list(tokens(nid, v)))
        if lack is not None:
            bad('text', '%s: the text lacks %r or has it out of order: %s' % (form, short(lack, 80), short(t, 300)))
        rec.count('text', len(t))
    try:
        p = native_encoder.encode(o)
    except Exception as e:
        bad('plain', '%s has no plain form: %s' % (form, short(e)))
        return None
    d = same(nid, p, v)
    if d:
        bad('plain', '%s as plain data: %s' % (form, d))
    return p


def job(rec, item, rng):
    (m, k, nid), nrand = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    opened = ref.Gen(S, rng, True)
    todo = [(v, False) for v in values(nid, rng, 0, nrand, 30)] + [(opened.random(nid, 40), True) for _ in range(2)]
    if len(todo) > 40:
        todo = rng.sample(todo, 40)
    for _ in range(5):
        v = swell(nid, ref.Gen(S, rng).random(nid, rng.choice([4, 12])), rng)
        if R.conforms(nid, v):
            todo.append((v, False))
            rec.count('long')
    for v, op in todo:
        want = R.der(nid, v)
        if len(want) > 20000:
            continue

        def bad(kind, what):
            rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), value=rep(v, 1500), der=want.hex())
        rec.see((nid, want) if nontrivial(nid, v) else None)
        # read, then shown
        try:
            o, rest = der_decoder.decode(want, asn1Spec=T(), decodeOpenTypes=op)
        except Exception as e:
            bad('decode', 'cannot be read: %s' % short(e))
            continue
        try:
            w = v if op else ordered(nid, v)
            if op and der_encoder.encode(der_decoder.decode(want, asn1Spec=T(), decodeOpenTypes=True)[0]) != want:
                raise ValueError
        except Exception:
            rec.count('not judged')
            continue
        p = show(rec, where, 'a value read', o, nid, w, bad, text=not op)
        if op:
            rec.count('open content', 'Open' in repr(v))
            continue
        # put together, then shown
        try:
            b = B.build(T(), nid, v)
        except Exception as e:
            bad('build', 'cannot be put together: %s' % short(e))
            continue
        show(rec, where, 'a value put together', b, nid, v, bad)
        rec.sample(type=where, plain=short(p, 150))


def run(ck):
    from p05 import everything
    everything()
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 6) for s in subs] + [(s, dose(own, 150, 12)) for s in own])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 30:
        ck.map(job, [(s, 30) for s in subs], 'r%d' % r, budget=400)
        r += 1
