"""Using the published definitions never changes them, nor what a later
operation gives; values do not share state."""
import copy
import random

import deep
import mutate
import p05
import ref
from work import (AMBIGUOUS, B, R, S, ber_decoder, ber_encoder, bridge, cer_encoder, der_decoder, der_encoder, hot, module,
                  nontrivial, rep, short, spread, subjects, values)
from pyasn1.codec.native import encoder as native_encoder

RULE = ('random histories of ordinary and failing operations on every published type, registry and ready-made object: '
        'build, encode, decode (fresh and reused schema, open types on and off, per-call registries, damaged input), '
        'edit of decoded values and of defaults in place, refused assignments, copies, retagging, printing, '
        'comparison. A deep snapshot of everything published (77 k objects) is compared around every batch, reused '
        'schema objects and sibling values after every step, and fixed canary operations after every history. '
        'Non-trivial: the step ran to its end; distinct by (operation, type, value).')
MIN = 5000


def presence(nid, seen=None, memo={}):
    """does the type or a part of it state that components be absent?  The
    library creates empty components as it encodes, and counts them as present
    when it encodes again; such values are encoded once only"""
    if nid not in memo:
        seen = seen or set()
        if nid in seen:
            return False
        seen.add(nid)
        n = S.nodes[nid]
        memo[nid] = 'absent' in repr(n.get('c')) or any(presence(f['t'], seen) for f in n.get('f') or ()) or bool(
            n.get('e') and presence(n['e'], seen))
    return memo[nid]


def edit(o, rng, depth=0):
    """changes a value object in place, everywhere it can"""
    univ = bridge.univ
    n = 0
    try:
        if isinstance(o, (univ.SequenceOf, univ.SetOf)):
            for i in range(len(o)):
                n += edit(o[i], rng, depth + 1)
            r = rng.random()
            if r < 0.4:
                o.clear()
                n += 1
            elif r < 0.7 and len(o):
                o.append(o[0])
                n += 1
        elif isinstance(o, univ.Choice):
            if o.isValue:
                n += edit(o.getComponent(), rng, depth + 1)
        elif isinstance(o, (univ.Sequence, univ.Set)):
            for i, t in enumerate(o.componentType.namedTypes):
                c = o.getComponentByPosition(i, default=None, instantiate=bool(t.isDefaulted))
                if c is None:
                    continue
                if isinstance(c, bridge.base.ConstructedAsn1Type):
                    n += edit(c, rng, depth + 1)
                elif c.isValue:
                    for new in (7, 'zz', b'\x05\x00', '1.2.9.9', "'101'B", '20300101000000Z', True):
                        try:
                            o[t.name] = new
                            n += 1
                            break
                        except Exception:
                            continue
                if t.isOptional and rng.random() < 0.2:
                    try:
                        o.setComponentByPosition(i)
                    except Exception:
                        pass
    except Exception:
        pass
    return n


class Step(object):
    def __init__(self, rec, rng, subs):
        self.rec, self.rng, self.subs = rec, rng, subs
        self.g = ref.Gen(S, rng)
        self.go = ref.Gen(S, rng, True)

    def value(self, nid):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.g.minimal(nid)
        return self.g.random(nid, rng.choice([6, 15, 40]))

    def run(self, s, op):
        m, k, nid = s
        if presence(nid) and op in ('build_siblings', 'show', 'copies'):
            op = 'reuse'
        T = getattr(module(m), k)
        getattr(self, op)(T, nid, '%s.%s' % (m, k))

    # ---- operations; each raises or calls bad() when the outcome is wrong
    def build_siblings(self, T, nid, where):
        v = self.value(nid)
        a, b = T(), T()
        fresh = deep.Snap(True).fp(b)
        a = B.build(a, nid, v)
        want = R.der(nid, v)
        if der_encoder.encode(a) != want:
            self.bad('build', where, 'a value is written differently after this history', value=rep(v, 1000))
        if deep.Snap(True).fp(b) != fresh or deep.Snap(True).fp(T()) != fresh:
            self.bad('sibling', where, 'filling one value changes another, empty one', value=rep(v, 1000))
        b = B.build(b, nid, v)
        if der_encoder.encode(b) != want:
            self.bad('build2', where, 'the second value built is written differently', value=rep(v, 1000))
        edit(a, self.rng)
        if der_encoder.encode(b) != want:
            self.bad('sibling-edit', where, 'editing one value changes another', value=rep(v, 1000))

    def reuse(self, T, nid, where):
        """one schema object for several messages"""
        spec = T()
        before = deep.Snap(True).fp(spec)
        vs = [self.value(nid) for _ in range(3)]
        objs = []
        for v in vs:
            try:
                objs.append((der_decoder.decode(R.der(nid, v), asn1Spec=spec)[0], v))
            except Exception as e:
                self.bad('reuse', where, 'a reused schema object refuses a good message: %s' % short(e), value=rep(v, 1000))
            if deep.Snap(True).fp(spec) != before:
                self.bad('spec', where, 'decoding changes the schema object', value=rep(v, 1000))
        if objs:
            edit(objs[0][0], self.rng)
        for o, v in objs[1:]:
            if der_encoder.encode(o) != R.der(nid, v):
                self.bad('reuse-edit', where, 'editing one decoded value changes another', value=rep(v, 1000))

    def defaults(self, T, nid, where):
        """an absent component keeps its default whatever was done to earlier values"""
        n = S.nodes[nid]
        if n['k'] not in ('seq', 'set'):
            return self.reuse(T, nid, where)
        v = self.g.minimal(nid)
        data = R.der(nid, v)
        for i in range(2):
            o, _ = der_decoder.decode(data, asn1Spec=T())
            d = B.diff(o, nid, v)
            if d:
                self.bad('default', where, 'after earlier values were edited: %s' % d, der=data.hex())
            edit(o, self.rng)
        o = B.build(T(), nid, v)
        for f in n['f']:
            if f['q'] == 'd' and S.nodes[f['t']]['k'] in ref.CONSTRUCTED:
                edit(o[f['n']], self.rng)
        o = B.build(T(), nid, v)
        if der_encoder.encode(o) != data:
            self.bad('default-build', where, 'after defaults were edited, a new value is written as %s' % der_encoder.encode(o).hex()[:200])

    def opened(self, T, nid, where):
        v = self.go.random(nid, 25)
        data = R.der(nid, v)
        if len(data) > 4000:
            return
        try:
            o, _ = der_decoder.decode(data, asn1Spec=T(), decodeOpenTypes=True)
        except Exception as e:
            self.bad('opened', where, 'with open types, a good message is refused: %s' % short(e), der=data.hex())
            return
        edit(o, self.rng)
        o, _ = der_decoder.decode(data, asn1Spec=T(), decodeOpenTypes=True)
        d = B.diff(o, nid, v, opened=True)
        if d:
            self.bad('opened-edit', where, 'after earlier content was edited: %s' % d, der=data.hex())

    def percall(self, T, nid, where):
        v = self.go.random(nid, 25)
        data = R.der(nid, v)
        extra = {bridge.univ.ObjectIdentifier('1.3.6.1.4.1.99999.7'): bridge.univ.OctetString(),
                 bridge.univ.Integer(250): bridge.univ.Integer()}
        try:
            der_decoder.decode(data, asn1Spec=T(), decodeOpenTypes=True, openTypes=extra)
        except Exception:
            pass

    def damaged(self, T, nid, where):
        data = R.der(nid, self.value(nid))
        if len(data) > 3000:
            return
        spec = T()
        before = deep.Snap(True).fp(spec)
        for op, x in list(mutate.mutants(data, self.rng, 4)) + [('cut', c) for c in mutate.cuts(data, self.rng, 6)][:4]:
            try:
                der_decoder.decode(x, asn1Spec=spec)
            except Exception:
                self.rec.count('refused')
        if deep.Snap(True).fp(spec) != before:
            self.bad('spec-error', where, 'a failed decoding changes the schema object', der=data.hex())
        v = self.value(nid)
        try:
            o, _ = der_decoder.decode(R.der(nid, v), asn1Spec=spec)
            if der_encoder.encode(o) != R.der(nid, v):
                self.bad('after-error', where, 'after failed decodings a good message is read differently', value=rep(v, 1000))
        except Exception as e:
            self.bad('after-error', where, 'after failed decodings a good message is refused: %s' % short(e), value=rep(v, 1000))

    def refused(self, T, nid, where):
        n = S.nodes[nid]
        o = T()
        if n['k'] in ('seq', 'set', 'choice'):
            for f in n['f'][:12]:
                for x in (object(), 1 << 70, 'x' * 40000, b'\xff\xfe', -1):
                    try:
                        T()[f['n']] = x
                    except Exception:
                        self.rec.count('refused')
            for x in ('nope', 999):
                try:
                    o[x] = 1
                except Exception:
                    self.rec.count('refused')
        else:
            for x in (object(), 1 << 70, 'x' * 40000, b'\xff\xfe', -1):
                try:
                    o.clone(x)
                except Exception:
                    self.rec.count('refused')
        v = self.value(nid)
        if der_encoder.encode(B.build(T(), nid, v)) != R.der(nid, v):
            self.bad('after-refusal', where, 'after refused assignments a value is written differently', value=rep(v, 1000))

    def show(self, T, nid, where):
        v = self.value(nid)
        o = B.build(T(), nid, v)
        want = der_encoder.encode(o)
        for f in (repr, str, lambda x: x.prettyPrint(), lambda x: x == x, lambda x: x.prettyPrintType(),
                  lambda x: list(x), lambda x: list(x.items()), lambda x: x.isInconsistent,
                  lambda x: ber_encoder.encode(x), lambda x: cer_encoder.encode(x), lambda x: x.isSameTypeWith(T()),
                  lambda x: T().isSuperTypeOf(x), repr):
            try:
                f(o)
            except Exception:
                self.rec.count('show refused')
        if der_encoder.encode(o) != want:
            self.bad('show', where, 'looking at a value changes it', value=rep(v, 1000))
        try:
            native_encoder.encode(o)
        except Exception:
            self.rec.count('show refused')
        for f in (repr, lambda x: x.prettyPrintType(), lambda x: x.isValue):
            f(T())

    def copies(self, T, nid, where):
        v = self.value(nid)
        o = B.build(T(), nid, v)
        want = der_encoder.encode(o)
        tg = bridge.tag
        made = []
        for f in (lambda: copy.deepcopy(o), lambda: o.clone(), lambda: o.clone(cloneValueFlag=True),
                  lambda: o.subtype(implicitTag=tg.Tag(tg.tagClassContext, tg.tagFormatSimple, 5)),
                  lambda: o.subtype(explicitTag=tg.Tag(tg.tagClassContext, tg.tagFormatConstructed, 6), cloneValueFlag=True),
                  lambda: copy.copy(T())):
            try:
                made.append(f())
            except Exception:
                self.rec.count('copy refused')
        for x in made:
            edit(x, self.rng)
        if der_encoder.encode(o) != want or want != R.der(nid, v):
            self.bad('copies', where, 'editing copies of a value changes it', value=rep(v, 1000))

    def ready(self, T, nid, where):
        """ready-made objects put into messages"""
        rng = self.rng
        m = rng.choice(sorted(x for x in S.modules if S.modules[x]['templates']))
        k = rng.choice(sorted(S.modules[m]['templates']))
        o = getattr(module(m), k)
        for f in (der_encoder.encode, repr, lambda x: x.prettyPrint(), lambda x: x.clone(), lambda x: copy.deepcopy(x),
                  lambda x: x == x):
            try:
                y = f(o)
                if y is not o and isinstance(y, bridge.base.Asn1Item):
                    edit(y, rng)
            except Exception:
                self.rec.count('ready refused')

    def registry(self, T, nid, where):
        rng = self.rng
        name = rng.choice(sorted(S.maps))
        mm, mk = name.split('.', 1)
        reg = getattr(module(mm), mk)
        for k in (bridge.univ.ObjectIdentifier('1.3.6.1.4.1.99999.8'), bridge.univ.Integer(12345)):
            k in reg, reg.get(k)
            try:
                reg[k]
            except KeyError:
                pass
        keys = sorted(S.maps[name])
        if keys:
            e = S.maps[name][rng.choice(keys)]
            for k, C in list(reg.items()):
                if str(k) in S.maps[name] and S.maps[name][str(k)] == e:
                    v = self.g.random(e['t'], 12)
                    try:
                        o, _ = der_decoder.decode(R.der(e['t'], v), asn1Spec=C)
                        edit(o, rng)
                        o, _ = der_decoder.decode(R.der(e['t'], v), asn1Spec=C)
                        d = B.diff(o, e['t'], v)
                        if d:
                            self.bad('registry', name, 'content of a registered type read differently later: %s' % d)
                    except Exception as ex:
                        self.bad('registry', '%s[%s]' % (name, k), 'content of a registered type refused after this history: %s' % short(ex))

    def bad(self, kind, where, what, **detail):
        self.rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **detail)


OPS = ['build_siblings', 'reuse', 'defaults', 'opened', 'percall', 'damaged', 'refused', 'show', 'copies', 'ready', 'registry']


def canaries(rng, subs):
    out = []
    for s in rng.sample(subs, 40):
        g = ref.Gen(S, rng)
        v = g.random(s[2], 20)
        out.append((s, v))
    return out


def sing(cs):
    res = []
    for (m, k, nid), v in cs:
        try:
            T = getattr(module(m), k)
            a = der_encoder.encode(B.build(T(), nid, v))
            o, r = der_decoder.decode(R.der(nid, v) + b'\x01', asn1Spec=T())
            res.append((a, der_encoder.encode(o), bytes(r), o.prettyPrint()))
        except Exception as e:
            res.append(type(e).__name__)
    return res


def history(rec, item, rng):
    """one history; the snapshots are taken around it"""
    subs, nsteps, quiet = item
    p05.everything()
    cs = canaries(rng, subs)
    song = sing(cs)
    before, n = deep.snapshot()
    rec.count('objects watched', n)
    step = Step(rec, rng, subs)
    trail = []
    for i in range(nsteps):
        s = quiet[i % len(quiet)] if quiet else rng.choice(subs)
        op = rng.choice(OPS)
        trail.append('%s(%s.%s)' % (op, s[0], s[1]))
        try:
            step.run(s, op)
        except Exception as e:
            rec.bad('step:%s:%s.%s' % (op, s[0], s[1]), '%s on %s.%s fails: %s' % (op, s[0], s[1], short(e)), trail=trail[-5:])
        rec.see((op, s[0], s[1], rng.random()), **{op: 1})
    after, _ = deep.snapshot()
    ch = deep.changed(before, after)
    if ch:
        roots = ['%s.%s' % c for c in ch]
        rec.bad('changed:' + roots[0], 'published definitions changed while being used: %s (%d names)' % (', '.join(roots[:6]), len(roots)),
                trail=trail)
    if sing(cs) != song:
        rec.bad('canary', 'the same operations give other results after a history', trail=trail)
    rec.sample(history=' '.join(trail[:6]), watched=n)


def run(ck):
    subs = [s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS]
    p05.everything()
    # every type gets its turn, in random company
    order = spread(subs, ck.seed)
    per = 75
    hs = [(subs, ck.pick(1200, 1500), order[i:i + per]) for i in range(0, len(order), per)]
    ck.map(history, hs, 'turns', chunk=1)
    # types that do something of their own, alone and for long
    own = hot(subs)
    if own:
        most = max([x for x in ref.MINED if isinstance(x, int) and x < 3000] or [0])
        ck.map(history, [(subs, 800 + 3 * most, spread(own, i)) for i in range(8)], 'own', chunk=1)
    rnd = 0
    while ck.thorough and ck.elapsed() < 480:
        order = spread(subs, '%s/%d' % (ck.seed, rnd))
        ck.map(history, [(subs, 500, order[i:i + per]) for i in range(0, len(order), per)], 'r%d' % rnd, chunk=1, budget=540)
        rnd += 1
