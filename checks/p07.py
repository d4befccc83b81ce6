"""Named numbers and named bits, in both directions, at every place a
published type uses them."""
import ref
from work import B, R, S, bridge, der_decoder, der_encoder, module, rep, short, subjects

RULE = ('every INTEGER, ENUMERATED or BIT STRING with named values, reached through every published type and every '
        'component, list element and default inside it: every declared name is assigned by name and by number, '
        'encoded, decoded and read back by name; undeclared names and neighbouring numbers are tried as well. '
        'Distinct by (place, name, direction).')
MIN = 8000


def places(obj, nid, path, depth, seen):
    """(path, schema object, node id) of everything with named values that a
    published type contains, not entering further published constructed types"""
    n = S.nodes[nid]
    if n.get('nv') or n['k'] in ('int', 'enum', 'bits') and depth == 0:
        yield path, obj, nid
    if depth > 3:
        return
    if n['k'] in ('seq', 'set', 'choice'):
        for i, f in enumerate(n['f']):
            fn = S.nodes[f['t']]
            c = obj.componentType[f['n']].asn1Object
            for x in places(c, f['t'], path + '.' + f['n'], depth + 1, seen):
                yield x
    elif n['k'] in ('seqof', 'setof') and n['e']:
        for x in places(obj.componentType, n['e'], path + '[]', depth + 1, seen):
            yield x


def job(rec, item, rng):
    m, k, nid = item
    where0 = '%s.%s' % (m, k)
    try:
        root = getattr(module(m), k)()
        ps = list(places(root, nid, where0, 0, set()))
    except Exception as e:
        rec.bad('walk:' + where0, '%s: %s' % (where0, short(e)))
        return
    for where, obj, pn in ps:
        place(rec, where, obj, pn, rng)


def place(rec, where, obj, nid, rng):
    n = S.nodes[nid]
    names = n.get('nv') or {}
    kind = n['k']

    def chk(name, what, f, expect):
        rec.see((where, name, what))
        try:
            got = f()
        except Exception as e:
            rec.bad('name:%s' % where, '%s: %s (%s): %s' % (where, name, what, short(e)))
            return
        if got != expect:
            rec.bad('name:%s' % where, '%s: %s (%s) gives %s, the standard says %s' % (
                where, name, what, str(got)[:100], str(expect)[:100]))
    have = obj.namedValues
    chk('*', 'declared names', lambda: sorted((str(a), int(b)) for a, b in have.items()), sorted(names.items()))
    for name, num in sorted(names.items()):
        if kind == 'bits':
            val = '0' * num + '1'
        else:
            val = num
        fits = ref.ok(n.get('c'), kind, val)
        if not fits:
            continue
        der = R.der(nid, val)
        chk(name, 'number of name', lambda: int(have[name]), num)
        chk(name, 'name of number', lambda: str(have.getName(num)), canonical(names, num, have))
        chk(name, 'octets by name', lambda: der_encoder.encode(obj.clone(name)), der)
        chk(name, 'value by name', lambda: B.leaf(kind, obj.clone(name)), val)
        if kind != 'bits':
            chk(name, 'octets by number', lambda: der_encoder.encode(obj.clone(num)), der)
            chk(name, 'name when printed', lambda: str(obj.clone(num)), canonical(names, num, have))
            chk(name, 'equal to name', lambda: bool(obj.clone(name) == num), True)
            chk(name, 'read back', lambda: str(der_decoder.decode(der, asn1Spec=obj.clone())[0]), canonical(names, num, have))
        else:
            chk(name, 'octets by bits', lambda: der_encoder.encode(obj.clone("'%s'B" % val)), der)
            chk(name, 'read back', lambda: B.leaf('bits', der_decoder.decode(der, asn1Spec=obj.clone())[0]), val)
            chk(name, 'bit is set', lambda: bool(der_decoder.decode(der, asn1Spec=obj.clone())[0][num]), True)
        rec.sample(place=where, name=name, number=num)
    if kind == 'bits' and len(names) > 1:
        for i in range(4):
            some = rng.sample(sorted(names), rng.randrange(2, len(names) + 1))
            nums = set(names[x] for x in some)
            val = ''.join('1' if j in nums else '0' for j in range(max(nums) + 1))
            if not ref.ok(n.get('c'), kind, val):
                continue
            chk(','.join(some), 'several names', lambda: der_encoder.encode(obj.clone(', '.join(some) if i % 2 else ','.join(some))), R.der(nid, val))
    if names:
        wrong = ['noSuchName%d' % rng.randrange(1000), ''] + near(rng.choice(sorted(names)), names, kind, rng)
        if kind == 'bits':
            # one undeclared name among declared ones
            for x in rng.sample(wrong[2:], min(6, len(wrong) - 2)) + wrong[:1]:
                if ',' in x:
                    continue
                some = rng.sample(sorted(names), rng.randrange(1, min(4, len(names)) + 1))
                some.insert(rng.randrange(len(some) + 1), x)
                wrong.append(rng.choice([',', ', ']).join(some))
        for bogus in wrong:
            if kind == 'bits' and not bogus:
                continue
            rec.see((where, 'bogus', bogus))
            try:
                obj.clone(bogus)
            except Exception:
                pass
            else:
                rec.bad('bogus:' + where, '%s accepts the undeclared name %r' % (where, bogus))


FOREIGN = sorted(set(a for n in S.nodes.values() for a in (n.get('nv') or {})))


def near(name, names, kind, rng):
    """spellings that are not declared"""
    r = [name.upper(), name.lower(), name.swapcase(), name + 'x', 'x' + name, name[:-1], name[1:], name.replace('-', '_') + '_',
         name + '-', name.title(), name + '\0', name + '.', name[:3], name + name]
    if kind != 'bits':
        # blanks belong to the syntax of bit lists
        r += [' ' + name, name + ' ', name + '\n', '\t' + name, name + ',' + name]
    r += [''.join(rng.choice('0123456789') if ch.isdigit() else ch for ch in name), name + str(rng.randrange(10)), name.rstrip('0123456789')]
    r += rng.sample(FOREIGN, min(8, len(FOREIGN)))
    r += [b.replace('-', '') for b in [name] if '-' in b] + [b.replace('-', '_') for b in [name] if '-' in b]
    return [x for x in r if x and x not in names and not x.strip().lstrip('+-').isdigit()]


def canonical(names, num, have):
    """when two names share a number either may be reported"""
    c = [a for a, b in names.items() if b == num]
    if len(c) > 1:
        x = str(have.getName(num))
        if x in c:
            return x
    return c[0]


def inplace(rec, item, rng):
    """through the component names of whole messages"""
    m, k, nid = item
    T = getattr(module(m), k)
    n = S.nodes[nid]
    where = '%s.%s' % (m, k)
    g = ref.Gen(S, rng)
    for f in n.get('f', ()):
        fn = S.nodes[f['t']]
        if not fn.get('nv') or n['k'] not in ('seq', 'set', 'choice'):
            continue
        for name, num in sorted(fn['nv'].items()):
            val = '0' * num + '1' if fn['k'] == 'bits' else num
            if not ref.ok(fn.get('c'), fn['k'], val):
                continue
            if n['k'] == 'choice':
                v = (f['n'], val)
            else:
                v = dict(g.minimal(nid))
                v[f['n']] = val
                if not ref.ok(n.get('c'), n['k'], v):
                    continue
            rec.see((where, f['n'], name), inplace=1)
            try:
                o = B.build(T(), nid, {} if n['k'] != 'choice' else v) if n['k'] == 'choice' else \
                    B.build(T(), nid, dict((a, b) for a, b in v.items() if a != f['n']))
                o[f['n']] = name
                got = der_encoder.encode(o)
            except Exception as e:
                rec.bad('inplace:%s.%s' % (where, f['n']), '%s.%s set to "%s": %s' % (where, f['n'], name, short(e)))
                continue
            if got != R.der(nid, v):
                rec.bad('inplace:%s.%s' % (where, f['n']), '%s with %s set to "%s" is written as %s, the standard says %s' % (
                    where, f['n'], name, got.hex()[:200], R.der(nid, v).hex()[:200]))


def run(ck):
    subs = [s for s in subjects(ck.rec)]
    ck.map(job, subs, 'places')
    ck.map(inplace, subs, 'inplace')
    if ck.thorough:
        for i in range(12):
            ck.map(job, subs, 'places%d' % i, budget=300)
