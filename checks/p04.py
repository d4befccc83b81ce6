"""Declared limits hold exactly: the last value inside is taken, the first one
outside is refused, on assignment and on the wire."""
import ref
from work import AMBIGUOUS, B, R, S, der_decoder, der_encoder, module, rep, short, spread, subjects

RULE = ('every value range, size, alphabet, permitted-value and component constraint reachable in a published type '
        '(through its own unnamed components), probed with the values just inside and just outside of each bound, far '
        'outside, and random ones: assigned/encoded through the classes, and fed to the decoder as octets made by '
        'the independent encoder; leaves also given in other ways (typed objects, text, octets, positions, updates). Non-trivial: the value lies on a bound or outside; distinct by (type, place, value).')
MIN = 5000

FOREIGN_CHARS = {
    'numeric': 'A-', 'printable': '@*_', 'ia5': '\x7f\x01', 'visible': '\x01', 'utf8': u'\u20ac\x00', 'bmp': u'\u20ac',
    'teletex': u'\xff', 'general': u'\xff', 'universal': u'\u20ac', 'graphic': u'\xff', 'videotex': u'\xff',
}


def spots(g, nid, seen=()):
    """(place, node, wrap): where constraints sit inside a type, and how to
    put a value there into an otherwise minimal value of the type"""
    n = S.nodes[nid]
    yield '', nid, (lambda v: v), (lambda v: False)
    if nid in seen or len(seen) > 6:
        return
    k = n['k']
    if k in ('seqof', 'setof') and n['e']:
        size = [s for s in g.seq_sizes(n) if s >= 1]
        if size and (not g.is_named(n['e'])):
            m = g.minimal(n['e'])

            def wrap_list(v):
                return [v] + [m] * (size[0] - 1)
            for p, c, w, o in spots(g, n['e'], seen + (nid,)):
                yield '[]' + p, c, (lambda v, w=w: wrap_list(w(v))), o
    if k in ('seq', 'set', 'choice'):
        for f in n['f']:
            if seen and g.is_named(f['t']):
                continue
            for p, c, w, o in spots(g, f['t'], seen + (nid,)):
                if k == 'choice':
                    yield '.' + f['n'] + p, c, (lambda v, w=w, f=f: (f['n'], w(v))), o
                else:
                    def put(v, w=w, f=f):
                        x = dict(g.minimal(nid))
                        x[f['n']] = w(v)
                        if not ref.ok(n.get('c'), k, x):
                            x = dict((h['n'], g.minimal(h['t'])) for h in n['f'] if h['q'] == 'm')
                            x[f['n']] = w(v)
                        return x
                    yield '.' + f['n'] + p, c, put, (
                        lambda v, o=o, w=w, f=f: o(v) or f['q'] != 'm' and g.empty(f['t'], w(v)))


# what someone may think does not count: blanks, zeroes, filling, accents, case
DRESS = (' ', '  ', '\t', '\r\n', '\n', '\0', '0', '00', '.', ',', '-', '_', '/', '\\', '"', "'", '()', '<>', '\ufeff', '\u200b', '\xad', '\u0301', '\xa0', '\u3000',
         '\U0001f600', 'ss', '=', '#', '+', '@', '*', '?', ':', ';')
DRESS_OCTETS = (b'\0', b'\0\0', b' ', b'\r\n', b'\n', b'\xff', b'\x80', b'0', b'\x01', b'\x04', b'=')


WIDE = ('utf8', 'bmp', 'universal')


def dressed(k, c, s, rng):
    """strings of s units, in which all that is beyond the nearest limit is such filling"""
    limits = [x for x in ref.numbers(c, ('size',)) if x < s]
    core = max(limits or [0])
    pieces = DRESS_OCTETS if k == 'octets' else [p for p in DRESS if all(ch in ref.ALPHA[k] or ch < ('\x80' if ref.TEXT[k][0] == 'ascii' else '\u0100' if k not in WIDE else '\U00010000' if k == 'bmp' else chr(0x10ffff)) for ch in p)]
    a = None if k == 'octets' else ref.alphabet(c) or ref.ALPHA[k]
    empty = b'' if k == 'octets' else ''

    def base(x):
        if k == 'octets':
            return bytes(rng.randrange(0x41, 0x5b) for _ in range(x))
        b = [y for y in a if y.isalnum()] or a
        return ''.join(rng.choice(b) for _ in range(x))
    for p in pieces:
        fill = (p * (s - core))[:s - core]
        b = base(core)
        yield b + fill
        yield fill + b
        i = rng.randrange(core + 1)
        yield b[:i] + fill + b[i:]
        if len(fill) > 1:
            yield fill[:1] + b + fill[1:]
        yield (p * s)[:s] or empty
    if k == 'utf8':
        yield (base(s)[:max(0, s - 1)] + '\xe9')[-s:] if s else ''


def candidates(g, nid, rng):
    """values around the bounds of a leaf or list, of any conformity"""
    n = S.nodes[nid]
    k, c = n['k'], n.get('c')
    out = []
    if k in ('int', 'enum'):
        for x in ref.numbers(c, ('range',)) + [x for x in ref.literals(c) if isinstance(x, int)]:
            out += [x - 1, x, x + 1, x + rng.randrange(2, 1000), x - rng.randrange(2, 1000)]
            out += [x + sign * (1 << w) for w in (8, 16, 31, 32, 63, 64) for sign in (1, -1)] + [-x]
        out += [-2 ** 70, 2 ** 70, rng.getrandbits(30), -rng.getrandbits(10)]
        out += list(n.get('nv', {}).values())
    elif k in ('octets', 'bits') or k in ref.TEXT and k not in ('utctime', 'gtime'):
        sizes = []
        for x in ref.numbers(c, ('size',)):
            sizes += [x - 1, x, x + 1, x + rng.randrange(2, 40), max(0, x - rng.randrange(2, 40))]
        sizes += [0, 1, 2, rng.randrange(3, 90)]
        sizes = [s for s in dict.fromkeys(sizes) if 0 <= s < 40000]
        if k == 'octets':
            out = [bytes(rng.getrandbits(8) for _ in range(s)) for s in sizes]
        elif k == 'bits':
            out = [''.join(rng.choice('01') for _ in range(s)) for s in sizes]
        else:
            a = ref.alphabet(c) or ref.ALPHA[k]
            out = [''.join(rng.choice(a) for _ in range(s)) for s in sizes]
            top = max([s for s in sizes if ref.ok(c, k, a[0] * s)] or [0])
            if top and ref.alphabet(c):
                base = ''.join(rng.choice(a) for _ in range(top))
                for ch in FOREIGN_CHARS.get(k, '') + 'aZ0 -':
                    i = rng.randrange(top)
                    out.append(base[:i] + ch + base[i + 1:])
        if k == 'bits':
            for s in sizes:
                out += ['0' * s, '1' * s, '1' + '0' * (s - 1) if s else '', '0' * (s - 1) + '1' if s else '']
        elif ref.numbers(c, ('size',)):
            for s in sizes:
                if s < 2000:
                    out += dressed(k, c, s, rng)
        lits = [x for x in ref.literals(c) if isinstance(x, (str, bytes))]
        for x in lits:
            out += [x, x + x[:1] if x else (b'a' if k == 'octets' else 'a'), x[:-1]]
            if k in ref.TEXT and x:
                out += [x.lower(), x.upper(), x + ' ']
    elif k == 'oid':
        for x in ref.literals(c):
            out += [x, x + (1,), x[:-1] + (x[-1] + 1,)]
        out += [(1, 2, 3, 4)]
    elif k in ('seqof', 'setof'):
        m = g.minimal(n['e'])
        for x in ref.numbers(c, ('size',)):
            for s in (x - 1, x, x + 1):
                if 0 <= s <= 600:
                    out.append([m] * s)
                    if 1 < s <= 70:
                        out.append([g.random(n['e'], 3) for _ in range(s)])
        out.append([])
        if not c:
            out += [[m] * s for s in (1, 2, 5, 17, 33, 65, 129, 257)]
    if k in ('int', 'enum'):
        lo = [x for x in ref.numbers(c, ('range',))]
        if len(lo) > 1:
            out += [rng.randint(min(lo), max(lo)) for _ in range(8)]
    if not c and k not in ('seqof', 'setof'):
        out += g.pool(nid)
    return out


def job(rec, item, rng):
    (m, k, nid), rounds = item
    g = ref.Gen(S, rng)
    T = getattr(module(m), k)
    done = set()
    for place, c, wrap, optional in spots(g, nid):
        n = S.nodes[c]
        if (place, c) in done or n['k'] in ('any', 'bool', 'null', 'choice', 'utctime', 'gtime') or (
                n['k'] in ('seq', 'set') and not n.get('c')) or (n['k'] in ('seqof', 'setof') and not n['e']):
            continue
        done.add((place, c))
        rec.count('constraints' if n.get('c') else 'unlimited places')
        for _ in range(rounds):
            if n['k'] in ('seq', 'set'):
                cands = combos(g, n)
            else:
                cands = candidates(g, c, rng)
            for v in cands:
                try:
                    full = wrap(v)
                except ValueError:
                    continue
                probe(rec, m, k, nid, T, place, n, v, full, optional(v))
                if n['k'] not in ref.CONSTRUCTED and place.count('.') + place.count('[]') < 2 and (not place or S.nodes[nid]['k'] in ref.CONSTRUCTED):
                    given(rec, m, k, nid, T, place, c, n, v, rng)


def combos(g, n):
    """each component present or absent (up to 6 of them)"""
    fs = [f for f in n['f']]
    opt = [f for f in fs if f['q'] != 'm'][:6]
    for bits in range(2 ** len(opt)):
        v = {}
        for f in fs:
            if f['q'] == 'm':
                v[f['n']] = g.minimal(f['t'])
            elif f in opt and bits >> opt.index(f) & 1:
                try:
                    v[f['n']] = g.filled(f)
                except ref.Empty:
                    pass
        yield v


def probe(rec, m, k, nid, T, place, n, v, full, optional):
    where = '%s.%s%s' % (m, k, place)
    inside = ref.ok(n.get('c'), n['k'], v)
    rec.see((nid, place, repr(v)), **{'inside' if inside else 'outside': 1})
    listy = n['k'] in ('seqof', 'setof', 'seq', 'set')
    try:
        o = B.build(T(), nid, full)
        built = True
        out = der_encoder.encode(o)
        taken = True
    except Exception as e:
        taken = False
        why = e
    data = R.der(nid, full)
    if inside and not taken:
        rec.bad('refused:' + where, '%s refuses %s, which is within its limits: %s' % (where, rep(v), short(why)))
    omitted = listy and not v and optional      # an empty optional list is written as an absent one
    if not inside and taken and not omitted:
        rec.bad('taken:' + where, '%s takes %s, which is outside its limits' % (where, rep(v)), der=out.hex())
    if (m, k) in AMBIGUOUS:
        return
    try:
        o, _ = der_decoder.decode(data, asn1Spec=T())
        read = True
    except Exception as e:
        read = False
        why = e
    if inside and not read:
        rec.bad('unreadable:' + where, '%s: decoder refuses %s, which is within limits: %s' % (where, rep(v), short(why)),
                der=data.hex())
    if not inside and read:
        if listy:
            # the codec library checks list limits when a value is used, not
            # while it is read: the value must not get through unnoticed
            try:
                der_encoder.encode(o)
            except Exception:
                rec.count('list limit noticed after reading')
            else:
                if not omitted:
                    rec.bad('relayed:' + where, '%s: %s, which is outside the limits, is read and written back' % (
                        where, rep(v)), der=data.hex())
            return
        rec.bad('read:' + where, '%s: decoder takes %s, which is outside the limits' % (where, rep(v)), der=data.hex())
    if len(data) > 8:
        rec.sample(type=where, value=rep(v), inside=inside)


def plainly(k, T, x):
    """the same value as an object of the codec library that has no limits"""
    return next(b for b in T.__mro__ if (b.__module__ or '').startswith('pyasn1.type'))(x)


def given(rec, m, k, nid, T, place, c, n, v, rng):
    """a value given in any other way than as the plain one"""
    where = '%s.%s%s' % (m, k, place)
    inside = ref.ok(n.get('c'), n['k'], v)
    x = B.leafval(n, v)
    kind = n['k']
    ways = []
    if place:
        name = place[1:]
        if place == '[]':
            L = type(T().componentType)
            ways = [('append', lambda o: o.append(x)), ('extend', lambda o: o.extend([x])), ('item', lambda o: o.__setitem__(0, x)),
                    ('setComponentByPosition', lambda o: o.setComponentByPosition(0, x)), ('setComponents', lambda o: o.setComponents(x)),
                    ('slice', lambda o: o.__setitem__(slice(0, 1), [x])), ('object', lambda o: o.append(o.componentType.clone(x)))]

            def got(o):
                return o[0]
        else:
            nts = T().componentType
            pos = nts.getPositionByName(name)
            L = type(nts[pos].asn1Object)
            ways = [('item', lambda o: o.__setitem__(name, x)), ('setComponentByName', lambda o: o.setComponentByName(name, x)),
                    ('setComponentByPosition', lambda o: o.setComponentByPosition(pos, x)), ('number', lambda o: o.__setitem__(pos, x)),
                    ('update', lambda o: o.update(**{name: x}) if name.isidentifier() else o.update((name, x))), ('update pairs', lambda o: o.update((name, x))),
                    ('object', lambda o: o.__setitem__(name, o.componentType[pos].asn1Object.clone(x))),
                    ('subtype', lambda o: o.__setitem__(name, o.componentType[pos].asn1Object.subtype(x)))]
            if n['k'] not in ('choice',):
                def got(o):
                    return o[name]

        P = next(b for b in L.__mro__ if b.__module__.startswith('pyasn1.type'))
        nolimit = type('NoLimit', (P,), {'tagSet': (T().componentType if place == '[]' else nts[pos].asn1Object).tagSet})
        other = [nolimit(x)]
        if kind in ('int', 'enum'):
            other += [str(v), str(v) + ' ', float(v) if abs(v) < 1 << 50 else str(v)]
        elif kind == 'octets':
            other += [tuple(v), list(v)]
        elif kind == 'bits':
            other += [tuple(int(y) for y in v)]
        elif kind == 'oid':
            other += [tuple(v)]
        elif kind in ref.TEXT:
            other += [v.encode(ref.TEXT[kind][0])]
        for y in other:
            form = 'unlimited' if isinstance(y, nolimit) else type(y).__name__
            if place == '[]':
                ways.append((form, lambda o, y=y: o.append(y)))
            else:
                ways.append((form, lambda o, y=y: o.__setitem__(name, y)))

        def make(f):
            o = T()
            f(o)
            return got(o)
    else:
        L = T
        ways = [('constructor', lambda: T(x)), ('clone', lambda: T().clone(x)), ('subtype', lambda: T().subtype(x)),
                ('object', lambda: T(plainly(kind, T, x))), ('again', lambda: T(x).clone(x))]
        if kind == 'octets':
            ways += [('hexValue', lambda: T(hexValue=v.hex())), ('tuple', lambda: T(tuple(v))), ('bytearray', lambda: T(bytes(bytearray(v))))]
        elif kind == 'bits':
            ways += [('binValue', lambda: T(binValue=v)), ('tuple', lambda: T(tuple(int(y) for y in v))), ('quoted', lambda: T("'%s'B" % v))]
        elif kind in ('int', 'enum'):
            ways += [('text', lambda: T(str(v)))]
        elif kind in ref.TEXT:
            ways += [('octets', lambda: T(v.encode(ref.TEXT[kind][0])))]

        def make(f):
            return f()
    for way, f in rng.sample(ways, 2):
        rec.see((nid, place, way, repr(v)), given=1)
        try:
            o = make(f)
            taken = o.isValue
        except Exception as e:
            taken, why = False, e
        if inside and not taken and way != 'unlimited':    # the codec library wants equal or narrower limits
            rec.bad('given-refused:%s:%s' % (way, where), '%s refuses %s given by %s, which is within its limits: %s' % (where, rep(v), way, short(why)))
        elif inside and taken:
            d = B.diff(o, c, v)
            if d:
                rec.bad('given-altered:%s:%s' % (way, where), '%s makes something else of %s given by %s: %s' % (where, rep(v), way, d))
        elif not inside and taken:
            rec.bad('given-taken:%s:%s' % (way, where), '%s takes %s given by %s, which is outside its limits' % (where, rep(v), way))


def run(ck):
    subs = spread(subjects(ck.rec), ck.seed)
    ck.map(job, [(s, ck.pick(1, 40)) for s in subs], budget=600)
