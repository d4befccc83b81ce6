"""spec/parts.json: which published class each component of each published
type is declared with (components tagged anew are left out), and where the
codec library does not recognise a copy of that class.  Run once."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import harness  # noqa: E402,F401
from work import S, module, subjects  # noqa: E402
from ref import CONSTRUCTED  # noqa: E402


class Rec(object):
    def bad(self, *a, **k):
        pass


def own(o):
    c = type(o)
    if not c.__module__.startswith('pyasn1_modules.'):
        return None
    m = c.__module__.split('.')[1]
    if getattr(module(m), c.__name__, None) is not c or c().tagSet != o.tagSet:
        return None
    return m, c.__name__


out = []
for m, k, nid in subjects(Rec()):
    n = S.nodes[nid]
    T = getattr(module(m), k)
    if n['k'] in ('seq', 'set', 'choice'):
        slots = [(f['n'], T.componentType[f['n']].asn1Object, f['t']) for f in n['f']]
    elif n['k'] in ('seqof', 'setof') and n['e']:
        slots = [(None, T().componentType, n['e'])]
    else:
        continue
    for name, o, t in slots:
        c = own(o)
        if c and S.modules[c[0]]['types'].get(c[1]) is not None:
            out.append([m, k, name, c[0], c[1], S.nodes[t]['k'] in CONSTRUCTED and not o.isSuperTypeOf(o.clone())])
with open(os.path.join(HERE, 'spec', 'parts.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(x) for x in out) + '\n]\n')
print(len(out), sum(1 for x in out if x[5]))
