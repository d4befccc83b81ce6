"""spec/registrations.json: which registry entries importing one module alone
brings in (module -> registry -> identifiers).  Frozen; not run by checks."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1]
out = {}
for n in sorted(f[:-3] for f in os.listdir(repo + '/pyasn1_modules') if f.endswith('.py') and f != '__init__.py'):
    p = subprocess.run([sys.executable, '-B', V + '/lib/importer.py'], input=json.dumps({'repo': repo, 'order': [n]}),
                       capture_output=True, text=True)
    r = json.loads(p.stdout.splitlines()[-1])
    assert not r['errors'], r
    out[n] = dict((m, sorted(e)) for m, e in sorted(r['maps'].items()) if e)
json.dump(out, open(V + '/spec/registrations.json', 'w'), indent=0, sort_keys=True)
print(len(out), os.path.getsize(V + '/spec/registrations.json'))
