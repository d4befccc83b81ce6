"""A message that was edited is the message it would have been built as."""
import harness  # noqa: F401
import ref
from p09 import presence
from p19 import lacking, tokens
from ref import CONSTRUCTED
from work import AMBIGUOUS, B, R, S, ber_decoder, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects

RULE = ('random histories of edits on values of every published type, put together or read: components assigned by name, '
        'by position and as attributes of nested parts, optional ones added, parts replaced by parts of other messages, '
        'alternatives switched, list members replaced, appended, lists emptied and refilled, refused assignments in '
        'between, with writing, reading, printing and copying interleaved; a model of plain data undergoes the same '
        'edits. After every step the octets must be those of the model, and at the end each component must read as in '
        'the model. One evaluation = one step; distinct by (type, octets).')
MIN = 15000
ASSUMPTIONS = ['pyasn1 has no way to take a single component out again: parts are emptied and filled anew',
               'a part with a default starts from its default when edited in place: it is replaced instead']


class Plan(object):
    """one edit: what becomes of the model, and how to do it to the object"""
    def __init__(self, rng):
        self.rng = rng
        self.g = ref.Gen(S, rng)

    def put(self, obj, name, nid, v, put):
        """a fresh part of its own, filled with v, put in its place"""
        t = obj.componentType.getTypeByPosition(obj.componentType.getPositionByName(name))
        c = t.clone()
        if not t.isSuperTypeOf(c):
            # pyasn1 does not recognise copies of types with a sizeSpec
            if S.nodes[nid]['k'] != 'choice':
                obj[name].clear()
            B.fill(obj[name], S.nodes[nid], v)
            return
        B.fill(c, S.nodes[nid], v)
        put(name, c)

    def make(self, nid, v, budget=12):
        n = S.nodes[nid]
        k, rng = n['k'], self.rng
        if rng.random() < 0.08 and k != 'choice':
            # emptied and filled anew
            new = self.g.random(nid, budget)
            if k in ('seqof', 'setof') and rng.random() < 0.5:
                return [], lambda obj: obj.clear(), 'emptied'

            def refill(obj):
                obj.clear()
                B.fill(obj, n, new)
            return new, refill, 'refill'
        if k in ('seq', 'set'):
            f = rng.choice(n['f']) if n['f'] else None
            if f is None:
                return None
            fn = S.nodes[f['t']]
            name = f['n']
            if fn['k'] in CONSTRUCTED and name in v and f['q'] != 'd' and rng.random() < 0.7:
                sub = self.make(f['t'], v[name], budget)
                if sub is None:
                    return None
                x, fn2, how = sub
                new = dict(v)
                new[name] = x
                return new, lambda obj: fn2(obj[name]), how
            x = self.g.random(f['t'], budget)
            if name in v and fn['k'] not in CONSTRUCTED and rng.random() < 0.35:
                x = self.g.near(f['t'], v[name])
            if f['q'] == 'o' and self.g.empty(f['t'], x):
                return None
            new = dict((h['n'], x if h is f else v[h['n']]) for h in n['f'] if h is f or h['n'] in v)
            if fn['k'] in CONSTRUCTED:
                if rng.random() < 0.5:
                    return new, lambda obj: self.put(obj, name, f['t'], x, obj.__setitem__), 'part'
                return new, lambda obj: self.put(obj, name, f['t'], x, obj.setComponentByName), 'part'
            leaf = B.leafval(fn, x)
            r = rng.random()
            if r < 0.4:
                return new, lambda obj: obj.__setitem__(name, leaf), 'leaf'
            if r < 0.6:
                return new, lambda obj: obj.setComponentByName(name, leaf), 'leaf'
            if r < 0.8:
                return new, lambda obj: obj.setComponentByPosition(obj.componentType.getPositionByName(name), leaf), 'leaf'
            return new, lambda obj: obj.update(**{name: leaf}) if hasattr(obj, 'update') and name.isidentifier() else obj.__setitem__(name, leaf), 'leaf'
        if k == 'choice':
            f = R.field(n, v[0])
            if S.nodes[f['t']]['k'] in CONSTRUCTED and rng.random() < 0.6:
                sub = self.make(f['t'], v[1], budget)
                if sub is None:
                    return None
                x, fn2, how = sub
                return (v[0], x), lambda obj: fn2(obj.getComponent()), how
            new = self.g.random(nid, budget)
            if S.nodes[f['t']]['k'] not in CONSTRUCTED and rng.random() < 0.35:
                new = v[0], self.g.near(f['t'], v[1])
            f = R.field(n, new[0])
            if S.nodes[f['t']]['k'] in CONSTRUCTED:
                return new, lambda obj: self.put(obj, new[0], f['t'], new[1], obj.__setitem__), 'switch'
            return new, lambda obj: obj.__setitem__(new[0], B.leafval(S.nodes[f['t']], new[1])), 'switch'
        en = S.nodes[n['e']]
        cons = en['k'] in CONSTRUCTED
        if v and cons and rng.random() < 0.5:
            i = rng.randrange(len(v))
            sub = self.make(n['e'], v[i], budget)
            if sub is None:
                return None
            x, fn2, how = sub
            return v[:i] + [x] + v[i + 1:], lambda obj: fn2(obj[i]), how

        def member(obj, x):
            if not cons:
                return B.leafval(en, x)
            c = obj.componentType.clone()
            B.fill(c, en, x)
            return c

        def add(obj, i, x):
            if cons and not obj.componentType.isSuperTypeOf(obj.componentType.clone()):
                if i < len(obj) and en['k'] != 'choice':
                    obj[i].clear()
                B.fill(obj[i], en, x)
            else:
                obj[i] = member(obj, x)

        def append(obj, *xs):
            if cons and not obj.componentType.isSuperTypeOf(obj.componentType.clone()):
                for x in xs:
                    add(obj, len(obj), x)
            elif len(xs) == 1:
                obj.append(member(obj, xs[0]))
            else:
                obj.extend([member(obj, x) for x in xs])
        x = self.g.random(n['e'], budget)
        if v and rng.random() < 0.5:
            i = rng.randrange(len(v))
            if not cons and rng.random() < 0.35:
                x = self.g.near(n['e'], v[i])
            return v[:i] + [x] + v[i + 1:], lambda obj: add(obj, i, x), 'member'
        r = rng.random()
        if r < 0.4:
            return v + [x], lambda obj: append(obj, x), 'append'
        if r < 0.7:
            return v + [x, x], lambda obj: append(obj, x, x), 'extend'
        return v + [x], lambda obj: add(obj, len(obj), x), 'add'


def refused(obj, nid, rng, seen):
    """assignments that must fail and must not leave a trace"""
    n = S.nodes[nid]
    if n['k'] in ('seq', 'set', 'choice'):
        for bad in ('no-such', 4000):
            try:
                if isinstance(bad, str):
                    obj[bad] = 1
                else:
                    obj.setComponentByPosition(bad, 1)
            except Exception:
                seen('refused')
        for f in n['f']:
            if S.nodes[f['t']]['k'] in ('int', 'enum', 'oid', 'bits') and rng.random() < 0.5:
                try:
                    obj[f['n']] = 'not \u20ac a value'
                except Exception:
                    seen('refused')


def looked(obj, nid, v):
    """what the choices in it say they are, read without touching anything
    that is not there; None or the difference"""
    n = S.nodes[nid]
    k = n['k']
    if k == 'choice':
        if obj.getName() != v[0]:
            return 'the alternative is reported as %s instead of %s' % (obj.getName(), v[0])
        if v[0] not in obj or list(obj.keys()) != [v[0]] or len(obj) != 1:
            return 'the alternatives are %s instead of %s' % (list(obj.keys()), v[0])
        return looked(obj.getComponent(), R.field(n, v[0])['t'], v[1])
    if k in ('seqof', 'setof'):
        if len(obj) != len(v):
            return '%d members instead of %d' % (len(obj), len(v))
        for i, x in enumerate(v):
            d = looked(obj[i], n['e'], x)
            if d:
                return d
    elif k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v and S.nodes[f['t']]['k'] in CONSTRUCTED:
                d = looked(obj[f['n']], f['t'], v[f['n']])
                if d:
                    return d


def hollow(v):
    """is there an empty list or structure in it?  Copies and readings of
    those are unset, to pyasn1"""
    if isinstance(v, dict):
        return not v or any(hollow(x) for x in v.values())
    if isinstance(v, list):
        return not v or any(hollow(x) for x in v)
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and hollow(v[1])


def dangling(g, nid, v):
    """is an optional part there, but empty?  pyasn1 does not write it"""
    n = S.nodes[nid]
    if n['k'] == 'choice':
        return dangling(g, R.field(n, v[0])['t'], v[1])
    if n['k'] in ('seq', 'set'):
        return any(f['n'] in v and (f['q'] == 'o' and g.empty(f['t'], v[f['n']]) or dangling(g, f['t'], v[f['n']])) for f in n['f'])
    if n['k'] in ('seqof', 'setof'):
        return any(dangling(g, n['e'], x) for x in v)
    return False


def wire(nid, v):
    """the order members of a SET OF come back in"""
    return R.decode(nid, R.der(nid, v))


def job(rec, item, rng):
    (m, k, nid), histories, steps = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    if S.nodes[nid]['k'] not in CONSTRUCTED or presence(nid):
        rec.count('nothing to edit')
        return
    for h in range(histories):
        p = Plan(rng)
        v = p.g.random(nid, rng.choice([4, 15]))
        log = []

        def bad(kind, what):
            rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), history=log, value=rep(v, 2000))
        try:
            if rng.random() < 0.5:
                o = B.build(T(), nid, v)
                log.append('put together')
            else:
                v = wire(nid, v)
                o = (der_decoder if rng.random() < 0.5 else ber_decoder).decode(R.der(nid, v), asn1Spec=T())[0]
                log.append('read')
        except Exception as e:
            bad('start', 'cannot be had: %s' % short(e))
            continue
        for i in range(steps):
            plan = None
            for _ in range(6):
                plan = p.make(nid, v)
                if plan is not None and R.conforms(nid, plan[0]) and not dangling(p.g, nid, plan[0]) and len(R.der(nid, plan[0])) < 4000:
                    break
                plan = None
            if plan is None:
                break
            new, do, how = plan
            if rng.random() < 0.15:
                refused(o, nid, rng, rec.count)
                log.append('refused')
            try:
                do(o)
            except Exception as e:
                bad('edit', 'the edit (%s) fails: %s' % (how, short(e)))
                break
            log.append(how)
            v = new
            want = R.der(nid, v)
            rec.see((nid, want) if nontrivial(nid, v) else None, **{how: 1})
            try:
                got = der_encoder.encode(o)
            except Exception as e:
                bad('write', 'after %s it cannot be written: %s' % (how, short(e)))
                break
            if got != want:
                bad('octets', 'after %s it is written as %s, not %s' % (how, got.hex()[:300], want.hex()[:300]))
                break
            if rng.random() < 0.4 and not hollow(v):
                d = looked(o, nid, v)
                if d:
                    bad('looks', 'after %s %s' % (how, d))
                    break
                log.append('looked at')
            r = rng.random()
            if r < 0.2:
                t = o.prettyPrint()
                log.append('printed')
                lack = lacking(t, list(tokens(nid, v)))
                if lack is not None:
                    bad('text', 'after %s its text lacks %r: %s' % (how, short(lack, 80), short(t, 300)))
                    break
            elif r < 0.3 and not hollow(v):
                try:
                    o = o.clone(cloneValueFlag=True)
                    log.append('cloned')
                except Exception:
                    rec.count('not cloned')
            elif r < 0.45:
                o = der_decoder.decode(got, asn1Spec=T())[0]
                v = wire(nid, v)
                log.append('read back')
        else:
            d = B.diff(o, nid, v) if not has_setof(nid) and not hollow(v) else None
            if d:
                bad('reads', 'after its edits %s' % d)
            rec.sample(type=where, history=', '.join(log))


def has_setof(nid, seen=None):
    seen = set() if seen is None else seen
    if nid in seen:
        return False
    seen.add(nid)
    n = S.nodes[nid]
    return n['k'] == 'setof' or any(has_setof(f['t'], seen) for f in n.get('f', ())) or bool(n.get('e')) and has_setof(n['e'], seen)


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 6, 10) for s in subs] + [(s, dose(own, 150, 12), 12) for s in own])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 40:
        ck.map(job, [(s, 12, 25) for s in subs], 'r%d' % r, budget=400)
        r += 1
