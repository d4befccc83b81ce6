#!/usr/bin/env python
"""Freeze the reference definitions.

Run ONCE against an audited tree (see DESIGN.md): it turns the schema objects
of every module into plain data (kinds, tags, order, optionality, defaults,
limits, names, numbers, registries, identifiers).  The checks never call this;
they only read spec/spec.json, which is committed, and drive the real classes
through their public behaviour.

    extract_spec.py REPO OUT.json
"""
import ast
import hashlib
import importlib
import json
import os
import pkgutil
import sys

REPO = sys.argv[1]
OUT = sys.argv[2]
sys.path.insert(0, REPO)

import pyasn1_modules  # noqa: E402
from pyasn1.codec.der import encoder as der  # noqa: E402
from pyasn1.type import base, univ, char, useful, constraint  # noqa: E402

names = sorted(m.name for m in pkgutil.iter_modules(pyasn1_modules.__path__))
mods = {n: importlib.import_module('pyasn1_modules.' + n) for n in names}

KINDS = [
    (useful.GeneralizedTime, 'gtime'), (useful.UTCTime, 'utctime'),
    (useful.ObjectDescriptor, 'objdesc'),
    (char.NumericString, 'numeric'), (char.PrintableString, 'printable'),
    (char.TeletexString, 'teletex'), (char.VideotexString, 'videotex'),
    (char.IA5String, 'ia5'), (char.GraphicString, 'graphic'),
    (char.VisibleString, 'visible'), (char.GeneralString, 'general'),
    (char.UniversalString, 'universal'), (char.BMPString, 'bmp'),
    (char.UTF8String, 'utf8'),
    (univ.Any, 'any'), (univ.Null, 'null'), (univ.OctetString, 'octets'), (univ.BitString, 'bits'),
    (univ.ObjectIdentifier, 'oid'),
    (univ.Boolean, 'bool'), (univ.Enumerated, 'enum'), (univ.Integer, 'int'),
    (univ.Real, 'real'),
    (univ.Choice, 'choice'), (univ.SetOf, 'setof'), (univ.SequenceOf, 'seqof'),
    (univ.Set, 'set'), (univ.Sequence, 'seq'),
]


def kind(o):
    for c, k in KINDS:
        if isinstance(o, c):
            return k
    raise TypeError(type(o))


def num(x):
    if x in (float('inf'), float('-inf')):
        return 'MAX' if x > 0 else 'MIN'
    return int(x)


def con(c):
    n = type(c).__name__
    if isinstance(c, (constraint.ConstraintsIntersection, constraint.ConstraintsUnion)):
        parts = [x for x in (con(v) for v in c._values) if x]
        op = 'and' if isinstance(c, constraint.ConstraintsIntersection) else 'or'
        flat = []
        for p in parts:
            if p[0] == op:
                flat.extend(p[1:])
            else:
                flat.append(p)
        uniq = []
        for p in flat:
            if p not in uniq:
                uniq.append(p)
        if not uniq:
            return None
        return uniq[0] if len(uniq) == 1 else [op] + uniq
    if n == 'ValueRangeConstraint':
        return ['range', num(c.start), num(c.stop)]
    if n == 'ValueSizeConstraint':
        return ['size', num(c.start), num(c.stop)]
    if n == 'SingleValueConstraint':
        return ['values'] + [scalar(v) for v in c._values]
    if n == 'PermittedAlphabetConstraint':
        return ['alphabet'] + sorted(str(v) for v in c._values)
    if n == 'WithComponentsConstraint':
        return ['with'] + [[str(f), con(v)] for f, v in c._values]
    if n in ('ComponentPresentConstraint', 'ComponentAbsentConstraint'):
        return ['present' if 'Present' in n else 'absent']
    if n == 'ConstraintsExclusion':
        return ['not'] + [con(v) for v in c._values]
    raise TypeError(n)


def scalar(v):
    if isinstance(v, univ.ObjectIdentifier):
        return 'oid:' + str(v)
    if isinstance(v, univ.Integer):
        return int(v)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return v
    if isinstance(v, univ.OctetString):
        return 'hex:' + bytes(v).hex()
    if isinstance(v, bytes):
        return 'hex:' + v.hex()
    raise TypeError(type(v))


mapname = {}
for n in names:
    for k, v in vars(mods[n]).items():
        if isinstance(v, dict) and not k.startswith('_'):
            # canonical owner: the module with the lowest number that defines it
            mapname.setdefault(id(v), []).append(n + '.' + k)


def owner(aliases):
    # prefer the module whose source assigns the name a dict display
    for a in aliases:
        m, k = a.split('.')
        src = open(mods[m].__file__).read()
        for st in ast.parse(src).body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == k for t in st.targets) and \
                    isinstance(st.value, ast.Dict):
                return a
    return aliases[0]


mapid = {i: owner(a) for i, a in mapname.items()}

nodes = {}


def put(d):
    s = json.dumps(d, sort_keys=True)
    h = hashlib.sha1(s.encode()).hexdigest()[:10]
    if h in nodes:
        assert nodes[h] == d
    nodes[h] = d
    return h


def tags(o, k):
    t = [[x.tagClass >> 6, x.tagId] for x in o.tagSet.superTags]
    t.reverse()  # outermost first
    return t


cache = {}
keep = []


def node(o):
    if id(o) in cache:
        return cache[id(o)]
    keep.append(o)
    k = kind(o)
    d = {'k': k, 't': tags(o, k)}
    if k == 'any' and o.tagSet.superTags and not o.tagSet.superTags[0].tagFormat:
        # known finding: see known_findings.json (primitive tag around a TLV)
        d['prim'] = 1
    if k not in ('choice', 'null'):
        c = con(o.subtypeSpec)
        if c:
            d['c'] = c
    if k in ('int', 'enum', 'bits') and o.namedValues:
        d['nv'] = {str(a): int(b) for a, b in o.namedValues.items()}
    if k in ('seq', 'set', 'choice'):
        fs = []
        for nt in o.componentType.namedTypes:
            f = {'n': nt.name, 't': node(nt.asn1Object)}
            if nt.isDefaulted:
                f['q'] = 'd'
                f['d'] = der.encode(nt.asn1Object).hex()
            elif nt.isOptional:
                f['q'] = 'o'
            if nt.openType:
                f['ot'] = [nt.openType.name, mapid.get(id(nt.openType._OpenType__typeMap), 'ANON')]
                assert nt.openType.name in [x.name for x in o.componentType.namedTypes], (o, nt.openType.name)
            fs.append(f)
        d['f'] = fs
    if k in ('seqof', 'setof'):
        d['e'] = node(o.componentType) if o.componentType is not None else None
    cache[id(o)] = put(d)
    return cache[id(o)]


def partial(o):
    """what a ready-made object already contains, without touching it:
    t type, der octets when complete, f/e what was put inside"""
    k = kind(o)
    out = {'t': node(o)}
    cv = getattr(o, '_componentValues', None)
    if k in ('seq', 'set') and isinstance(cv, list):
        f = {}
        for i, nt in enumerate(o.componentType.namedTypes):
            c = cv[i] if i < len(cv) else None
            if c is None or c is univ.noValue:
                continue
            if nt.isDefaulted and c.isValue and c == nt.asn1Object or not c.isValue and node(c) == node(nt.asn1Object) and not partial(c).get('f') and not partial(c).get('e'):
                continue        # only looked at
            f[nt.name] = partial(c)
        out['f'] = f
    elif k in ('seqof', 'setof') and isinstance(cv, dict) and cv:
        assert sorted(cv) == list(range(len(cv)))
        out['e'] = [partial(cv[i]) for i in range(len(cv))]
    if o.isValue:
        try:
            out['der'] = der.encode(o).hex()
        except Exception:
            pass
    return out


def defined(m):
    """names a module's source assigns (or defines as a class) at top level"""
    tree = ast.parse(open(m.__file__).read())
    out = []
    for st in tree.body:
        tg = []
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    tg.append(t.id)
                elif isinstance(t, ast.Tuple):
                    tg += [e.id for e in t.elts if isinstance(e, ast.Name)]
        elif isinstance(st, ast.ClassDef):
            tg.append(st.name)
        for x in tg:
            if not x.startswith('_') and x not in out:
                out.append(x)
    return out


spec = {'modules': {}, 'maps': {}}
for n in names:
    m = mods[n]
    own = defined(m)
    star = [k for k, v in vars(m).items() if not k.startswith('_') and k not in own and
            isinstance(v, type) and issubclass(v, base.Asn1Item) and v.__module__.startswith('pyasn1_modules.')]
    star += [k for k, v in vars(m).items() if not k.startswith('_') and k not in own and
             isinstance(v, base.Asn1Item)]
    M = {'types': {}, 'values': {}, 'templates': {}, 'plain': {}, 'maps': {}, 'inherited': {}}
    for where, lst in (('own', own), ('inherited', star)):
        for k in lst:
            v = getattr(m, k)
            if isinstance(v, type) and issubclass(v, base.Asn1Item):
                try:
                    inst = v()
                except Exception as e:
                    print('cannot instantiate', n, k, e)
                    continue
                e = ('types', node(inst))
                if where == 'own':
                    M['types'][k] = e[1]
                else:
                    M['inherited'][k] = e[1]
            elif isinstance(v, base.Asn1Item):
                if v.isValue and isinstance(v, base.SimpleAsn1Type):
                    e = [node(v), der.encode(v).hex()]
                    if where == 'own':
                        M['values'][k] = e
                    else:
                        M['inherited'][k] = e
                elif where == 'own':
                    M['templates'][k] = partial(v)
            elif where == 'own' and isinstance(v, dict):
                M['maps'][k] = mapid[id(v)]
            elif where == 'own' and isinstance(v, (int, float, str)):
                M['plain'][k] = num(v) if not isinstance(v, str) else v
            elif where == 'own' and isinstance(v, type):
                pass
            elif where == 'own':
                print('other', n, k, type(v))
    spec['modules'][n] = M

for n in names:
    for k, v in vars(mods[n]).items():
        if isinstance(v, dict) and not k.startswith('_') and mapid[id(v)] == n + '.' + k:
            ent = {}
            for a, b in v.items():
                ks = str(a)
                e = {'t': node(b)}
                if b.isValue:
                    e['v'] = partial(b)
                ent[ks] = e
            spec['maps'][n + '.' + k] = ent
spec['nodes'] = nodes

with open(OUT, 'w') as f:
    f.write('{\n"modules": {\n')
    f.write(',\n'.join('%s: %s' % (json.dumps(n), json.dumps(M, sort_keys=True)) for n, M in sorted(spec['modules'].items())))
    f.write('\n},\n"maps": {\n')
    f.write(',\n'.join('%s: %s' % (json.dumps(n), json.dumps(M, sort_keys=True)) for n, M in sorted(spec['maps'].items())))
    f.write('\n},\n"nodes": {\n')
    f.write(',\n'.join('%s: %s' % (json.dumps(n), json.dumps(M, sort_keys=True)) for n, M in sorted(nodes.items())))
    f.write('\n}\n}\n')
tot = {k: sum(len(M[k]) for M in spec['modules'].values()) for k in ('types', 'values', 'templates', 'plain', 'maps', 'inherited')}
print(tot, 'nodes', len(nodes), 'maps', len(spec['maps']), os.path.getsize(OUT))
