"""Writes properties.jsonl and MANIFEST.json for the properties that have a
check under checks/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = 'pyasn1_modules/rfc*.py'
P = {}


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note)
    if observe:
        P[id]['anchors']['observe_at'] = observe
    if state:
        P[id]['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]


REF = ('independent DER encoder/decoder driven by a frozen transcription of every published type (spec/spec.json), '
       'written without the codec library')

prop('P01', 'Every value of a published type is written as the octets its standard prescribes',
     'For every message type the package publishes, any value that respects the standard\'s definition can be built '
     'through the published component names, and its DER encoding is exactly the octets that definition prescribes: '
     'right tags and tagging mode, component order, omission of absent and default components, string types and '
     'member order of sets.',
     ['inputs'], 'every published type of every module, every conforming value of it: each optional and default '
     'component present or absent, each alternative, list sizes, leaf values at and between limits',
     'The tests decode and re-encode one or two recorded messages per module, which leave most components, '
     'alternatives and types never exercised; a wrong tag or optionality in any of them goes unnoticed.',
     [MODS], [('component tables', 'namedtype.NamedTypes(...) of each class'), ('tagging', '.subtype(implicitTag=/explicitTag=)'),
              ('default values', 'namedtype.DefaultedNamedType')],
     'runtime monitor: online differential oracle (independent DER encoder) over generated values',
     'Exploration: coverage-driven values of all published types plus seeded random ones. Trusts the frozen '
     'transcription of the definitions, which was reviewed against the standards and OpenSSL.',
     ['der encoder output'])

prop('P02', 'Reading a well-formed message gives exactly its value and leaves the rest alone',
     'Decoding the standard encoding of any value of a published type succeeds and yields that value: every '
     'component under its published name, absent optional components absent, absent default components reading as '
     'their standard default. Octets after the message are returned untouched, and encoding the result again gives '
     'the octets that were read.',
     ['inputs'], 'every published type, every conforming value, any trailing octets',
     'Tests check a handful of components of one recorded message per module; misplaced, merged or dropped '
     'components in other messages are not seen.',
     [MODS], [('component tables', 'namedtype.NamedTypes(...) of each class'), ('defaults', 'DefaultedNamedType')],
     'runtime monitor: online value oracle over messages made by an independent encoder',
     'Exploration: coverage-driven and random messages of all types; field-by-field comparison, remainder and re-encoding.')

prop('P03', 'Messages that do not have the structure of the type are refused',
     'Decoding octets as a published type fails with an error whenever they are not an encoding of that type: a '
     'mandatory component missing, an undeclared, repeated or misplaced one, a wrong tag or class, a truncated message '
     'or a message of another type. A value that lacks a mandatory component, or a chosen alternative, cannot be '
     'encoded, and undeclared components cannot be set.',
     ['inputs'], 'every published type; every single structural damage of every valid message, every proper prefix, '
     'every missing mandatory component',
     'The tests contain no malformed messages at all, so optionality or tags that are too lax stay invisible: valid '
     'messages still decode.',
     [MODS], [('mandatory vs optional', 'NamedType / OptionalNamedType'), ('tags', '.subtype(implicitTag=/explicitTag=)')],
     'runtime monitor: acceptance compared with an independent structural decoder over mutated messages',
     'Exploration over sampled mutations (drop, duplicate, swap, replace, insert, retag, reclass, flip, cut). '
     'Documented leniencies of the codec library are not judged.')

prop('P04', 'Declared limits are enforced exactly, neither looser nor tighter',
     'For every size, range, permitted-alphabet, single-value or component-presence limit that a published type '
     'states, values at the limit are accepted as they are and values just outside it are refused, in whatever form they are '
     'given, when assigned or encoded, and for simple values also when decoded. Types for which no limit is stated accept values of any size.',
     ['inputs'], 'every limit of every published type and component, values on both sides of it',
     'No test assigns a value outside a limit and few use values at one, so a limit dropped, shifted by one or '
     'applied to the wrong thing is not noticed.',
     [MODS], [('limits', 'subtypeSpec / sizeSpec, ValueSizeConstraint, ValueRangeConstraint, PermittedAlphabetConstraint, '
               'SingleValueConstraint, WithComponentsConstraint'), ('upper bounds', 'ub_* and MAX constants')],
     'runtime monitor: acceptance compared with the frozen limits at and around every boundary',
     'Exploration: every boundary value of every limit, plus large and random values. The codec library checks list '
     'sizes only on encoding, so decoding is judged for simple values only.')

prop('P05', 'A registered identifier selects the type of open content, and nothing else does',
     'When open types are resolved, content whose identifier is registered is read as the registered type (or refused '
     'if it is not of that type), and content with an unregistered identifier is left as its octets; without '
     'resolution content is always left as its octets. Either way, encoding the result gives back the octets read, '
     'objects of the registered type may be assigned to such a field, and a registry passed to one call affects that '
     'call alone, a registration made by the program all later ones until it is taken back.',
     ['inputs', 'histories'], 'every field with open content, every registered identifier, any content, nesting of '
     'open types, options on or off, registries passed per call',
     'Tests resolve a few identifiers of a few messages; thousands of field/identifier pairs, unregistered '
     'identifiers and wrong content are never run.',
     [MODS], [('open type fields', 'opentype.OpenType(name, map)'), ('registries', 'certificateExtensionsMap, '
              'certificateAttributesMap, algorithmIdentifierMap, cmsContentTypesMap, cmsAttributesMap, ... and their update() calls')],
     'runtime monitor: online value/octet oracle over every (field, identifier) pair, nested and damaged contents',
     'Exploration: all pairs with minimal and random content. Judged with all modules imported; order of import is P08.',
     state=[('registries', 'identifier -> type, shared between modules and filled by import', 'rfc5280.py, rfc5652.py, ...')])
exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None

have = [p for p in sorted(P) if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in have:
        x = dict((k, v) for k, v in P[p].items() if k not in ('tech', 'note'))
        assert len(x['title']) <= 80, (p, len(x['title']))
        f.write(json.dumps(x) + '\n')
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python checks/run.py selftest',
    'checks': [{
        'property': p,
        'quick_cmd': '/opt/venv/bin/python checks/run.py ' + p,
        'thorough_cmd': '/opt/venv/bin/python checks/run.py %s --tier thorough' % p,
        'technique': P[p]['tech'], 'level': 'exploration', 'level_note': P[p]['note'],
    } for p in have],
    'not_applicable': [],
    'notes': 'No hooks in /repo: everything is observed through the public interface. Known findings: known_findings.txt. '
             'Exit 2 = too little observed, 3 = the check failed.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(have)
