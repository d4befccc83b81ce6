"""Types of a user's own, made from published ones, work as declared."""
import harness  # noqa: F401
import ref
from ref import CONSTRUCTED
from p05 import opens
from pyasn1.type import constraint, namedtype, opentype, tag, univ
from work import (AMBIGUOUS, B, R, S, ber_decoder, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects)

RULE = ('from each published type: a subclass, an implicitly and an explicitly tagged form with tags of every class and '
        'size, a narrowed form, members of lists and sets, components of structures (mandatory, optional, by default) and '
        'alternatives of choices, and the content behind a registry of the user\'s own; random values are put together and '
        'read with each, and compared with octets assembled by hand around those of the independent encoder. The '
        'published type must be as before. One evaluation = one value of one derived type; distinct by (type, form, octets).')
MIN = 15000
ASSUMPTIONS = ['implicit tags around untagged choices and open types are outside ASN.1; explicit ones are used']
CLASSES = {tag.tagClassContext: 2, tag.tagClassApplication: 1, tag.tagClassPrivate: 3}


def retag(der, cls, num):
    """the same with another outer tag"""
    t = ref.read_tag(der, 0)
    return ref.enc_tag(cls, num, bool(der[0] & 0x20)) + der[t[-1]:]


def wrapped(der, cls, num):
    return ref.tlv(cls, num, True, der)


def seq(*parts):
    return ref.tlv(0, 16, True, b''.join(parts))


def forms(T, nid, v, g, rng):
    """(name, schema, octets of v in it, how to put v in it, how to take it out)"""
    n = S.nodes[nid]
    der = R.der(nid, v)
    loose = n['k'] == 'any' or n['k'] == 'choice' and not n.get('tags')
    direct = (lambda o: B.build(o, nid, v)), (lambda o: o)
    cls = rng.choice(list(CLASSES))
    num = rng.choice([0, 1, 5, 30, 31, 127, 128, 5000])
    mark = tag.Tag(cls, tag.tagFormatConstructed if n['k'] in CONSTRUCTED else tag.tagFormatSimple, num)
    box = tag.Tag(cls, tag.tagFormatConstructed, num)
    c = CLASSES[cls]
    yield ('subclass', type('Mine', (T,), {})(), der) + direct
    if n['k'] != 'any':
        # the codec library decodes tagged ANY whatever its tag
        yield ('explicit', T().subtype(explicitTag=box), wrapped(der, c, num)) + direct
        yield ('two tags', T().subtype(explicitTag=box).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 3)),
               wrapped(wrapped(der, c, num), 2, 3)) + direct
    if not loose:
        yield ('implicit', T().subtype(implicitTag=mark), retag(der, c, num)) + direct
        yield ('subclass with tags', type('Mine', (T,), {'tagSet': T.tagSet.tagImplicitly(mark)})(), retag(der, c, num)) + direct
        yield ('implicit in explicit', T().subtype(implicitTag=mark).subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 3)),
               wrapped(retag(der, c, num), 2, 3)) + direct

    def put(name):
        def f(o):
            if n['k'] in CONSTRUCTED:
                B.fill(o[name], n, v)
            else:
                o[name] = B.leafval(n, v)
            return o
        return f

    def with_id(name):
        def f(o):
            o['id'] = 7
            return put(name)(o)
        return f
    seven = b'\x02\x01\x07'
    yield ('component', univ.Sequence(componentType=namedtype.NamedTypes(
        namedtype.NamedType('id', univ.Integer()), namedtype.NamedType('part', T()))),
        seq(seven, der), with_id('part'), lambda o: o['part'])
    if n['k'] != 'any' and not g.empty(nid, v):
        yield ('optional tagged', univ.Sequence(componentType=namedtype.NamedTypes(
            namedtype.NamedType('id', univ.Integer()),
            namedtype.OptionalNamedType('part', T().subtype(explicitTag=box)))),
            seq(seven, wrapped(der, c, num)), with_id('part'), lambda o: o['part'])
    if n['k'] != 'any':
        yield ('alternative', univ.Choice(componentType=namedtype.NamedTypes(
            namedtype.NamedType('none', univ.Null().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 77))),
            namedtype.NamedType('part', T().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 78))))),
            wrapped(der, 2, 78), put('part'), lambda o: o['part'])

    def lists(o):
        if n['k'] in CONSTRUCTED:
            B.fill(o[0], n, v)
            B.fill(o[1], n, v)
        else:
            o[0] = B.leafval(n, v)
            o.append(B.leafval(n, v))
        return o
    yield ('list', univ.SequenceOf(componentType=T()), seq(der, der), lists, lambda o: o[1])
    yield ('set', univ.SetOf(componentType=T()), ref.tlv(0, 17, True, der + der), lists, lambda o: o[0])

    # values of a subclass where the published type is declared
    Own = type('Own', (T,), {})

    def own():
        return B.build(Own(), nid, v)

    def own_part(o):
        o['id'] = 7
        o['part'] = own()
        return o

    def own_member(o):
        o.append(own())
        o[1] = own()
        return o

    def own_choice(o):
        o['part'] = own()
        return o
    yield ('own component', univ.Sequence(componentType=namedtype.NamedTypes(
        namedtype.NamedType('id', univ.Integer()), namedtype.NamedType('part', T()))),
        seq(seven, der), own_part, lambda o: o['part'])
    yield ('own member', univ.SequenceOf(componentType=T()), seq(der, der), own_member, lambda o: o[1])
    if not loose:
        yield ('own alternative', univ.Choice(componentType=namedtype.NamedTypes(
            namedtype.NamedType('none', univ.Null().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 77))),
            namedtype.NamedType('part', T()))), der, own_choice, lambda o: o['part'])
    key = univ.ObjectIdentifier((1, 3, 6, 1, 4, 1, 99999, 7))
    holder = univ.Sequence(componentType=namedtype.NamedTypes(
        namedtype.NamedType('kind', univ.ObjectIdentifier()),
        namedtype.NamedType('part', univ.Any(), openType=opentype.OpenType('kind', {key: T()}))))

    def open_(o):
        o['kind'] = key
        o['part'] = B.build(T(), nid, v)
        return o
    yield ('open', holder, seq(R.der(OID, tuple(key)), der), open_, lambda o: o['part'])


OID = next(nid for m, k, nid in S.types() if S.nodes[nid]['k'] == 'oid')


def narrowed(rec, T, nid, v, g, bad):
    """one value of a simple type only, and the limits of the type besides"""
    n = S.nodes[nid]
    w = g.near(nid, v)
    if w == v or not R.conforms(nid, w) or n['k'] not in ('int', 'enum', 'octets', 'oid') and n['k'] not in ref.TEXT:
        return
    value = T().clone(B.leafval(n, v))
    one = constraint.SingleValueConstraint(v if n['k'] in ('int', 'enum', 'octets') else tuple(value) if n['k'] == 'oid' else str(value))
    Mine = type('Mine', (T,), {'subtypeSpec': constraint.ConstraintsIntersection(T.subtypeSpec, one), 'defaultValue': univ.noValue})
    if g.rng.random() < 0.5 and not isinstance(T.subtypeSpec, (constraint.SingleValueConstraint, constraint.ConstraintsUnion)) and T.defaultValue is univ.noValue:
        # (limits added to a list of values or a union widen it)
        Mine = T().subtype(subtypeSpec=constraint.ConstraintsIntersection(one)).clone
    rec.see((nid, 'narrowed', repr(v), repr(w)), narrowed=1)
    try:
        if der_encoder.encode(Mine(B.leafval(n, v))) != R.der(nid, v):
            bad('narrowed', 'the value a narrowed form allows is written differently', v)
    except Exception as e:
        bad('narrowed', 'the value a narrowed form allows is refused: %s' % short(e), v)
    try:
        Mine(B.leafval(n, w))
        bad('narrowed', 'a narrowed form takes a value beyond it', w)
    except Exception:
        pass
    try:
        T().clone(B.leafval(n, w))
    except Exception as e:
        bad('narrowed', 'the published type is narrowed as well: %s' % short(e), w)


class Mark(object):
    """methods a user may add or replace"""
    note = 'mine'

    def prettyPrint(self, scope=0):
        return '<%s>' % self.note

    def noted(self):
        return self.note


def behaving(T, nid, v, der, bad, mixed):
    """a subclass that adds and replaces methods: it does what it says, and
    only it does"""
    if mixed:
        Mine = type('Mine', (Mark, T), {})
    else:
        Mine = type('Mine', (T,), dict((a, b) for a, b in vars(Mark).items() if not a.startswith('__')))
    o = der_decoder.decode(der, asn1Spec=Mine())[0]
    p = B.build(Mine(), nid, v)
    for x in (o, p, p.clone() if S.nodes[nid]['k'] in CONSTRUCTED else p.clone(B.leafval(S.nodes[nid], v))):
        if not isinstance(x, Mine) or x.noted() != 'mine' or x.prettyPrint() != '<mine>':
            bad('behaving', 'a subclass with methods of its own does not use them', v)
    if der_encoder.encode(o) != der or der_encoder.encode(p) != der:
        bad('behaving', 'a subclass with methods of its own is written differently', v)


def job(rec, item, rng):
    (m, k, nid), count = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    g = ref.Gen(S, rng)
    n = S.nodes[nid]
    if n['k'] == 'null' and not isinstance(T, type):
        return

    def bad(kind, what, v, **more):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), value=rep(v, 1500), **more)
    for i in range(count):
        v = g.random(nid, rng.choice([3, 10, 25]))
        der = R.der(nid, v)
        if len(der) > 4000:
            continue
        if n['k'] in ('setof', 'seqof', 'seq', 'set', 'choice'):
            v = R.decode(nid, der)
        try:
            text = B.build(T(), nid, v).prettyPrint()
        except Exception as e:
            bad('shown', 'cannot be shown: %s' % short(e), v)
            continue
        fs = forms(T, nid, v, g, rng)
        while True:
            try:
                form, spec, want, put, take = next(fs)
            except StopIteration:
                break
            except Exception as e:
                bad('form', 'no type can be made from it: %s' % short(e), v)
                break
            rec.see((nid, form, want) if nontrivial(nid, v) else None, **{form: 1})
            try:
                o = put(spec.clone() if form != 'subclass' else spec.__class__())
                got = der_encoder.encode(o)
                if got != want:
                    bad(form, 'in a type of the user\'s own (%s) it is written as %s, not %s' % (form, got.hex()[:200], want.hex()[:200]), v)
                    continue
            except Exception as e:
                bad(form, 'in a type of the user\'s own (%s) it cannot be written: %s' % (form, short(e)), v)
                continue
            try:
                o, rest = (der_decoder if rng.random() < 0.7 else ber_decoder).decode(want + b'\x05\x00', asn1Spec=spec, decodeOpenTypes=form == 'open' and not opens(nid))
                if form == 'open' and opens(nid):
                    continue
                d = B.diff(take(o), nid, v)
                if d or bytes(rest) != b'\x05\x00':
                    bad(form, 'in a type of the user\'s own (%s) it is read differently: %s' % (form, d or 'remainder'), v, der=want.hex())
                elif form != 'open' and der_encoder.encode(o) != want:
                    bad(form, 'in a type of the user\'s own (%s) it is written back differently' % form, v, der=want.hex())
            except Exception as e:
                bad(form, 'in a type of the user\'s own (%s) it cannot be read: %s' % (form, short(e)), v, der=want.hex())
        if n['k'] not in CONSTRUCTED:
            try:
                narrowed(rec, T, nid, v, g, bad)
            except Exception as e:
                bad('narrowed', 'cannot be narrowed: %s' % short(e), v)
        try:
            behaving(T, nid, v, der, bad, rng.random() < 0.5)
            rec.see((nid, 'behaving', der) if nontrivial(nid, v) else None, behaving=1)
        except Exception as e:
            bad('behaving', 'a subclass with methods of its own: %s' % short(e), v)
        # the published type is what it was
        try:
            o = der_decoder.decode(der, asn1Spec=T())[0]
            if hasattr(o, 'noted') or B.build(T(), nid, v).prettyPrint() != text:
                bad('changed', 'deriving types changed what the published type is read or shown as', v)
            if der_encoder.encode(B.build(T(), nid, v)) != der:
                bad('changed', 'deriving types changed the published type', v)
        except Exception as e:
            bad('changed', 'after deriving types from it: %s' % short(e), v)
        if i == 0:
            rec.sample(type=where, der=der.hex()[:200])


def run(ck):
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    own = hot(subs)
    ck.map(job, [(s, 3) for s in subs] + [(s, dose(own, 60, 6)) for s in own])
    r = 0
    while ck.thorough and ck.elapsed() < 350 and r < 40:
        ck.map(job, [(s, 10) for s in subs], 'r%d' % r, budget=400)
        r += 1
