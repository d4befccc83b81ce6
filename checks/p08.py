"""What a module publishes does not depend on what else was imported, in which
order, by how many threads, or how the interpreter was started; importing has
no other effect."""
import json
import os
import random
import subprocess
import sys

from work import S, bridge, short

RULE = ('fresh interpreters import one module alone, random subsets in random order, everything in random order, '
        'everything from several threads with tiny switch intervals, and everything under different interpreter '
        'options, hash seeds and environments, with an audit hook armed. What each module publishes and registers is '
        'fingerprinted structurally and compared with the reference run on the same tree and with the frozen list of '
        'names and registrations. One evaluation = one module (or registry) seen in one interpreter; distinct by '
        '(way of import, module).')
MIN = 5000
ASSUMPTIONS = ['fingerprints cover tags, components, limits, named values, defaults and values; not class identity',
               'one pair of registry entries differs in form only and is accepted either way: the gender attribute '
               '(SIZE(1) is implied by the four permitted values)']
# different objects with the same meaning
EQUIVALENT = {('rfc5280.certificateAttributesMap', '1.3.6.1.5.5.7.9.3')}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def names():
    return sorted(f[:-3] for f in os.listdir(os.path.join(bridge.REPO, 'pyasn1_modules'))
                  if f.endswith('.py') and f != '__init__.py')


def launch(job, flags=(), env=None, cwd='/'):
    e = dict((k, v) for k, v in os.environ.items() if not k.startswith('PYTHON'))
    e.update(env or {})
    for k in [k for k, v in e.items() if v is None]:
        del e[k]
    job = dict(job, repo=bridge.REPO)
    p = subprocess.run([sys.executable, '-B', '-X', 'pycache_prefix=/nonexistent'] + list(flags) +
                       [os.path.join(HERE, 'lib', 'importer.py')], input=json.dumps(job).encode(),
                       capture_output=True, env=e, cwd=cwd, timeout=300)
    out = p.stdout.decode('utf-8', 'replace').splitlines()
    try:
        r = json.loads(out[-1])
    except Exception:
        return {'errors': ['the interpreter died: %s' % p.stderr.decode('utf-8', 'replace')[-300:]]}
    r['noise'] = '\n'.join(out[:-1]) + p.stderr.decode('utf-8', 'replace')
    return r


_ref = {}


def judge(rec, label, way, r, wanted):
    """wanted: the modules whose own promises this run must show"""
    for e in r.get('errors', []):
        rec.see()
        rec.bad('import:%s:%s' % (label if label in ('alone',) else way, e.split(':')[0]), '%s: importing fails: %s' % (way, e), way=way)
    if 'mods' not in r:
        return
    if r['noise'].strip():
        rec.bad('noise:' + label, '%s: importing prints %r' % (way, r['noise'][:200]))
    for e in r['events']:
        rec.bad('effect:%s' % e[:60], '%s: importing has a side effect: %s' % (way, e))
    for c in r['changed']:
        rec.bad('changed:%s' % c, '%s: importing changes %s of the process' % (way, c))
    ref = _ref['r']
    for m, pub in r['mods'].items():
        rec.see((label, way, m), modules=1)
        want = ref['mods'].get(m, {})
        for k in want:
            if k not in pub:
                rec.bad('lost:%s.%s' % (m, k), '%s: %s does not publish %s' % (way, m, k), way=way)
            elif pub[k] != want[k]:
                if k == '*':
                    d = sorted(set(pub[k]) ^ set(want[k]))
                    rec.bad('star:' + m, '%s: "from %s import *" differs in %s' % (way, m, d[:5]), way=way)
                else:
                    rec.bad('differs:%s.%s' % (m, k), '%s: %s.%s is not what it is elsewhere' % (way, m, k), way=way)
        for k in pub:
            if k not in want:
                rec.bad('extra:%s.%s' % (m, k), '%s: %s publishes %s, but not elsewhere' % (way, m, k), way=way)
    for name, ent in r['maps'].items():
        rec.see((label, way, name), registries=1)
        want = ref['maps'].get(name, {})
        for k, v in ent.items():
            rec.count('entries')
            if (name, k) in EQUIVALENT:
                continue
            if k not in want:
                rec.bad('stray:%s[%s]' % (name, k), '%s: %s has an entry for %s that it does not have elsewhere' % (way, name, k), way=way)
            elif v != want[k]:
                rec.bad('conflict:%s[%s]' % (name, k), '%s: which type %s registers for %s depends on what else was '
                        'imported and when' % (way, name, k), way=way)
    frozen = _ref['frozen']
    for m in wanted:
        for name, keys in frozen.get(m, {}).items():
            have = r['maps'].get(name, {})
            for k in keys:
                if k not in have:
                    rec.bad('unregistered:%s[%s]' % (name, k), '%s: %s is imported, but %s has no entry for %s' % (way, m, name, k), way=way)


def run_one(rec, item, rng):
    kind, arg = item
    if kind == 'alone':
        r = launch({'order': [arg]})
        judge(rec, 'alone', 'alone ' + arg, r, [arg])
        if 'mods' in r:
            pub = r['mods'].get(arg, {})
            M = S.modules.get(arg)
            if M:
                for sec in ('types', 'values', 'templates', 'plain', 'inherited'):
                    for k in M[sec]:
                        if k not in pub:
                            rec.bad('unpublished:%s.%s' % (arg, k), '%s imported alone does not publish %s' % (arg, k))
    elif kind in ('order', 'subset'):
        r = launch({'order': arg[1]}, env={'PYTHONHASHSEED': str(arg[0])})
        judge(rec, kind, '%s %s' % (kind, ','.join(arg[1][:6])), r, arg[1])
    elif kind == 'config':
        flags, env, order = arg
        r = launch({'order': order}, flags, env)
        judge(rec, 'config', 'config %s %s' % (' '.join(flags), env), r, order)
    elif kind == 'threads':
        r = launch({'order': arg, 'threads': 1})
        judge(rec, 'threads', 'threads %d %s' % (len(arg), ','.join(a[0] for a in arg)), r, [n for a in arg for n in a])
    rec.sample(kind=kind, arg=str(arg)[:150])


CONFIGS = [(['-O'], {}), (['-OO'], {}), (['-W', 'error'], {}), (['-bb'], {}), (['-X', 'dev'], {}), (['-I'], {}), (['-E'], {}),
           (['-s', '-S'], {'PYTHONPATH': '/opt/venv/lib/python3.12/site-packages'}), (['-X', 'utf8=0'], {'LC_ALL': 'C'}),
           ([], {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}), ([], {'HOME': None, 'PATH': None, 'TZ': 'Pacific/Apia'}),
           ([], {'PYTHONHASHSEED': '0'}), ([], {'PYTHONHASHSEED': '4294967295'}), (['-X', 'importtime'], {}),
           ([], {'PYTHONMALLOC': 'debug'}), (['-X', 'int_max_str_digits=640'], {}), (['-R'], {})]


def site():
    import pyasn1
    return os.path.dirname(os.path.dirname(pyasn1.__file__))


def run(ck):
    ns = names()
    r = launch({'order': ns}, env={'PYTHONHASHSEED': '1'})
    if 'mods' not in r or r['errors']:
        ck.rec.see()
        ck.rec.bad('import', 'importing everything fails: %s' % (r['errors'],))
        if 'mods' not in r:
            return
    _ref['r'] = r
    with open(os.path.join(HERE, 'spec', 'registrations.json')) as f:
        _ref['frozen'] = json.load(f)
    judge(ck.rec, 'reference', 'reference', r, list(_ref['frozen']))
    for m in _ref['frozen']:
        if m not in r['mods']:
            ck.rec.bad('gone:' + m, 'module %s is gone' % m)
    rng = ck.rng('orders')
    jobs = [('alone', n) for n in ns]
    confs = [(f, dict((k, site() if k == 'PYTHONPATH' else v) for k, v in e.items())) for f, e in CONFIGS]
    confs = [c for c in confs if '-X' not in c[0] or 'importtime' not in c[0]]
    for f, e in confs:
        jobs.append(('config', (f, e, ns)))

    def subsets(n):
        for i in range(n):
            x = rng.sample(ns, rng.randrange(2, 9))
            yield ('subset', (rng.randrange(1 << 30), x))

    def orders(n):
        for i in range(n):
            x = list(ns)
            rng.shuffle(x)
            yield ('order', (rng.randrange(1 << 30), x))

    def threads(n):
        for i in range(n):
            t = rng.choice([2, 3, 4, 8, 16])
            x = list(ns)
            rng.shuffle(x)
            y = [x[j::t] for j in range(t)]
            if rng.random() < 0.5:      # all threads want everything
                y = []
                for j in range(t):
                    z = list(ns)
                    rng.shuffle(z)
                    y.append(z)
            yield ('threads', y)
    jobs += list(subsets(ck.pick(60, 600))) + list(orders(ck.pick(30, 300))) + list(threads(ck.pick(24, 300)))
    rng.shuffle(jobs)
    ck.map(run_one, jobs, 'imports', chunk=1, budget=ck.pick(None, 560))
