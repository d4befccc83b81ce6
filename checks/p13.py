"""Threads that use the definitions at the same time get what each would get
alone."""
import io
import json
import os
import random
import subprocess
import sys
import threading
import time
import types

import bridge
import deep
import ref
from work import (AMBIGUOUS, B, R, S, ber_decoder, cer_encoder, der_decoder, der_encoder, hot, module, rep, short, spread, subjects)

RULE = ('several threads, released together and switched every few microseconds, build, encode, decode, re-encode, '
        'print and open content of overlapping sets of types, share schema objects, registries, ready-made objects '
        'and read-only messages, read PEM files and make first use of freshly imported modules and registries, with pauses put in at random lines of the package; every outcome is '
        'compared with the one the independent oracle prescribes, and everything published with its state before. One '
        'evaluation = one operation under contention; distinct by (operation, type, value). The number of observed '
        'thread switches between consecutive operations is recorded.')
MIN = 15000
ASSUMPTIONS = ['one value object is written by one thread only; schema objects, registries and finished messages are shared']


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'registrations.json')) as _f:
    REGISTERED = [(m, reg, key) for m, regs in sorted(json.load(_f).items()) for reg, keys in sorted(regs.items()) for key in keys]


class Log(object):
    """what happened, in the order the threads finished their steps"""
    def __init__(self):
        self.events, self.bads = [], []

    def switches(self):
        return sum(1 for a, b in zip(self.events, self.events[1:]) if a != b)


def decode(T, nid, v, data, spec):
    o, rest = der_decoder.decode(data + b'\x05', asn1Spec=spec)
    d = B.diff(o, nid, v)
    if d or bytes(rest) != b'\x05':
        return 'read differently: %s' % (d or 'remainder')
    if der_encoder.encode(o) != data:
        return 're-encoded differently'


def build(T, nid, v, data, spec):
    if der_encoder.encode(B.build(T(), nid, v)) != data:
        return 'written differently'


def bclone(T, nid, v, data, spec):
    if der_encoder.encode(B.build(spec.clone(), nid, v)) != data:
        return 'written differently from a shared schema object'


def opened(T, nid, v, data, spec):
    o, rest = der_decoder.decode(data, asn1Spec=spec, decodeOpenTypes=True)
    d = B.diff(o, nid, v, opened=True)
    if d:
        return 'opened differently: %s' % d


def refuse(T, nid, v, data, spec):
    if len(data) < 3:
        return
    try:
        der_decoder.decode(data[:-1], asn1Spec=spec)
    except Exception:
        return
    return 'a truncated message is accepted'


def show(T, nid, v, data, spec):
    o, _ = der_decoder.decode(data, asn1Spec=spec)
    a = o.prettyPrint()
    repr(spec)
    if o.prettyPrint() != a:
        return 'printed differently'


def names(T, nid, v, data, spec):
    """values given by their names"""
    n = S.nodes[nid]
    nv = sorted((n.get('nv') or {}).items(), key=lambda x: x[1])
    if not nv:
        return build(T, nid, v, data, spec)
    i = data[-1] + len(data)
    if n['k'] == 'bits':
        pick = [x for j, x in enumerate(nv) if (i >> j % 7) & 1] or nv[i % len(nv):][:1]
        bits = ['0'] * (max(b for _, b in pick) + 1)
        for _, b in pick:
            bits[b] = '1'
        text, want = ','.join(a for a, _ in pick), ''.join(bits)
        if not ref.ok(n.get('c'), 'bits', want):
            return
        got = der_encoder.encode(spec.clone(text) if i % 2 else T(text))
        if got != R.der(nid, want):
            return 'the names %s are written as %s' % (text, got.hex())
        return
    a, b = nv[i % len(nv)]
    if not ref.ok(n.get('c'), n['k'], b):
        return
    o = spec.clone(a) if i % 2 else T(a)
    if der_encoder.encode(o) != R.der(nid, b) or o.prettyPrint() not in [x for x, y in nv if y == b]:
        return 'the name %s is written as %s and read as %s' % (a, der_encoder.encode(o).hex(), o.prettyPrint())


STUCK = 40
stuck = []
OPS = [decode, decode, build, bclone, opened, refuse, show]


def crowd(rec, jobs, rng, nthreads, log, shared):
    """jobs: per thread a list of (op, subject, value, octets)"""
    gate = threading.Barrier(nthreads)

    def body(i):
        gate.wait()
        for op, (m, k, nid), v, data in jobs[i]:
            T = getattr(module(m), k)
            spec = shared[m, k] if (m, k) in shared else T()
            try:
                r = op(T, nid, v, data, spec)
            except Exception as e:
                r = 'fails: ' + short(e)
            log.events.append(i)
            if r:
                log.bads.append(('%s:%s.%s' % (op.__name__, m, k), '%s of %s.%s among %d threads: %s' % (op.__name__, m, k, nthreads, r), v))
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nthreads)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 5e-5]))
    hits = jitter(rng.random())
    try:
        for t in ts:
            t.start()
        # they are stuck when nothing has happened for a long time
        seen, since = -1, time.monotonic()
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(0.2)
            if seen != len(log.events):
                seen, since = len(log.events), time.monotonic()
            elif time.monotonic() - since > STUCK:
                stuck.append(1)
                log.bads.append(('stuck', 'threads wait for each other: no step in %d s' % STUCK, None))
                break
    finally:
        calm()
        rec.count('pauses put in', hits[0])
        sys.setswitchinterval(old)


def session(rec, item, rng):
    if stuck:
        # in this process nothing can be learned any more
        return
    subs, nops = item[:2]
    ops = item[2] if len(item) > 2 else OPS
    g, go = ref.Gen(S, rng), ref.Gen(S, rng, True)
    few = rng.sample(subs, min(len(subs), rng.choice([1, 2, 5, 20])))
    nt = rng.choice([2, 4, 8])
    jobs = []
    for _ in range(nt):
        js = []
        for _ in range(nops):
            s = rng.choice(few)
            op = names if S.nodes[s[2]].get('nv') and rng.random() < 0.6 else rng.choice(ops)
            v = (go if op is opened else g).random(s[2], rng.choice([5, 20]))
            data = R.der(s[2], v)
            if len(data) > 5000:
                v = (go if op is opened else g).minimal(s[2])
                data = R.der(s[2], v)
                op = decode if op is opened else op
            js.append((op, s, v, data))
        jobs.append(js)
    # what one thread alone gets; open content may be beyond the codec's means
    alone = {}
    for js in jobs:
        for j, (op, (m, k, nid), v, data) in enumerate(js):
            T = getattr(module(m), k)
            try:
                alone[id(js), j] = op(T, nid, v, data, T())
            except Exception as e:
                alone[id(js), j] = short(e)
    jobs = [[x for j, x in enumerate(js) if alone[id(js), j] is None] for js in jobs]
    rec.count('left out: not possible alone either', sum(1 for x in alone.values() if x is not None))
    shared = dict(((s[0], s[1]), getattr(module(s[0]), s[1])()) for s in few)
    before = dict((k, deep.Snap(True).fp(o)) for k, o in shared.items())
    log = Log()
    crowd(rec, jobs, rng, nt, log, shared)
    if len(log.events) != sum(len(js) for js in jobs) and not log.bads:
        raise RuntimeError('threads died')
    for key, what, v in log.bads:
        rec.bad(key, what, value=rep(v, 1000))
    for k, o in shared.items():
        if deep.Snap(True).fp(o) != before[k]:
            rec.bad('shared:%s.%s' % k, 'threads sharing a schema object of %s.%s change it' % k)
    for js in jobs:
        for op, s, v, data in js:
            rec.see((op.__name__, s[0], s[1], data), **{op.__name__: 1})
    rec.count('thread switches seen between operations', log.switches())
    rec.count('sessions of %d threads' % nt)


def pemreaders(rec, item, rng):
    """PEM files read by several threads, each its own"""
    import p10
    pem = module('pem')
    files = []
    for i in range(6):
        lines, want = [], []
        for _ in range(30):
            lab = rng.choice(p10.LABELS[:4])
            d = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 400)))
            s, e = p10.marks(lab)
            lines += [s] + p10.lay(d, rng) + [e]
            want.append((p10.LABELS.index(lab), d))
        files.append(('\n'.join(lines), want))
    ms = [p10.marks(x) for x in p10.LABELS[:4]]
    bads = []

    def body(text, want):
        f, got = io.StringIO(text), []
        try:
            while len(got) <= len(want):
                r = pem.readPemBlocksFromFile(f, *ms)
                if r[0] < 0:
                    break
                got.append((r[0], bytes(r[1])))
        except Exception as e:
            bads.append(short(e))
        if got != want:
            bads.append('%d blocks of %d right' % (sum(1 for a, b in zip(got, want) if a == b), len(want)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    hits = jitter(rng.random()) if item % 2 else None
    try:
        ts = [threading.Thread(target=body, args=f) for f in files]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        if hits:
            calm()
            rec.count('pauses put in', hits[0])
        sys.setswitchinterval(old)
    for text, want in files:
        for i, w in enumerate(want):
            rec.see(('pem', w), pem=1)
    if bads:
        rec.bad('pem', 'PEM files read by several threads at once: %s' % bads[0])


# ---- first use: in a fresh interpreter the very first operations collide
def jitter(seed):
    """threads pause at random lines of the package, so that others see
    whatever is half done"""
    mon, r = sys.monitoring, random.Random(seed)
    home = os.path.join(bridge.REPO, 'pyasn1_modules') + os.sep
    hits = [0]

    def line(code, number):
        if not code.co_filename.startswith(home):
            return mon.DISABLE
        if r.random() < (0.002 if code.co_name == '<module>' else 0.4):
            hits[0] += 1
            time.sleep(r.choice((0, 0.00005, 0.0005)))
    mon.use_tool_id(4, 'verif')
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    return hits


def calm():
    sys.monitoring.set_events(4, 0)
    sys.monitoring.free_tool_id(4)


def lookup(m, reg, key):
    """what importing m registers is there for whoever imported it"""
    mm, mk = reg.split('.')
    module(m)
    r = getattr(module(mm), mk)
    ident = bridge.univ.ObjectIdentifier(key) if '.' in key else bridge.univ.Integer(int(key))
    if ident not in r:
        return 'not in the registry'
    if r.get(ident) is None:
        return 'get() finds nothing'
    r[ident]


def child():
    """run in a fresh interpreter: stdin holds the plan"""
    import pickle
    plan = pickle.load(sys.stdin.buffer)
    sys.setswitchinterval(plan['interval'])
    nt = len(plan['jobs'])
    gate = threading.Barrier(nt)
    bads, order = [], []
    hits = jitter(plan['jitter']) if plan['jitter'] else [0]

    def body(i):
        gate.wait()
        # the very first look at each registry, by all at once
        for m, reg, key in plan['lookups']:
            module(m)
            try:
                gate.wait(30)
            except threading.BrokenBarrierError:
                pass
            try:
                r = lookup(m, reg, key)
            except Exception as e:
                r = 'fails: ' + short(e)
            order.append(i)
            if r:
                bads.append(('%s[%s]' % (reg, key), r))
        for m, k, nid, v, data in plan['jobs'][i]:
            try:
                T = getattr(module(m), k)
                r = (decode if i % 2 else build)(T, nid, v, data, T())
            except Exception as e:
                r = 'fails: ' + short(e)
            order.append(i)
            if r:
                bads.append(('%s.%s' % (m, k), r))
    done = []

    def importer():
        gate.wait()
        try:
            for m in plan['imports']:
                module(m)
                order.append(-1)
        except Exception as e:
            bads.append((m, 'import fails: ' + short(e)))
        finally:
            done.append(1)

    def shower(i):
        # used over and over while the registrations come in
        own = [(getattr(module(m), k), m, k, nid, v, data) for m, k, nid, v, data in plan['shows']]
        gate.wait()
        n = 0
        while not done or n < len(own):
            T, m, k, nid, v, data = own[n % len(own)]
            try:
                r = (show, decode, build)[(n // len(own)) % 3](T, nid, v, data, T())
            except Exception as e:
                r = 'fails: ' + short(e)
            order.append(i)
            if r:
                bads.append(('%s.%s' % (m, k), r))
            n += 1
            if n > 4000 or len(bads) > 20:
                break
    if plan['imports']:
        gate = threading.Barrier(4)
        ts = [threading.Thread(target=importer)] + [threading.Thread(target=shower, args=(i,)) for i in range(3)]
    else:
        ts = [threading.Thread(target=body, args=(i,)) for i in range(nt)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(100)
    stuck = any(t.is_alive() for t in ts)
    sys.stdout.write(json.dumps({'bads': bads[:20], 'n': len(order), 'stuck': stuck, 'pauses': hits[0],
                                 'switches': sum(1 for a, b in zip(order, order[1:]) if a != b)}))
    sys.stdout.flush()
    os._exit(0)


def first(rec, item, rng):
    import pickle
    subs, nt = item[:2]
    g = ref.Gen(S, rng)
    mods = {}
    for s in subs:
        mods.setdefault(s[0], []).append(s)
    jobs = []
    for i in range(nt):
        js = []
        for m in rng.sample(sorted(mods), 4):
            for s in rng.sample(mods[m], min(3, len(mods[m]))):
                v = g.random(s[2], 8)
                data = R.der(s[2], v)
                if len(data) < 3000:
                    js.append((s[0], s[1], s[2], v, data))
        jobs.append(js)
    lookups = rng.sample(REGISTERED, 60)
    imports, shows = [], []
    if len(item) > 2:
        imports, lookups = sorted(mods), []
        rng.shuffle(imports)
        for s in rng.sample(item[2], min(3, len(item[2]))) + rng.sample(mods['rfc5280'] + mods['rfc5652'], 3):
            for _ in range(3):
                v = g.random(s[2], 8)
                data = R.der(s[2], v)
                if len(data) < 2000 and (decode(getattr(module(s[0]), s[1]), s[2], v, data, getattr(module(s[0]), s[1])()) is None):
                    shows.append((s[0], s[1], s[2], v, data))
                    break
        jobs = [shows]
        rec.count('used while modules are imported', len(shows))
    elif rng.random() < 0.5:      # everybody starts with the same
        jobs = [jobs[0] + js for js in jobs]
    code = 'import sys; sys.path[:0] = %r; sys.setrecursionlimit(5000); import p13; p13.child()' % [
        os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'), os.path.dirname(os.path.abspath(__file__))]
    env = dict(os.environ, VERIF_REPO=bridge.REPO, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([sys.executable, '-c', code], input=pickle.dumps({
            'jobs': jobs, 'interval': rng.choice([1e-6, 1e-5]), 'lookups': lookups, 'imports': imports, 'shows': shows, 'jitter': rng.choice([0, rng.random(), rng.random()])}),
                           capture_output=True, env=env, timeout=300)
        res = json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        rec.bad('first-hang', 'threads importing and using modules for the first time do not end', jobs=[[x[:2] for x in js] for js in jobs])
        return
    except ValueError:
        raise RuntimeError('child gave no answer: %s' % p.stderr[-800:].decode('utf-8', 'replace'))
    for w, r in res['bads']:
        rec.bad('first:' + w, 'first use of %s by several threads: %s' % (w, r), jobs=[[x[:2] for x in js] for js in jobs])
    if res['stuck']:
        rec.bad('first-stuck', 'a thread importing and using modules for the first time does not end', jobs=[[x[:2] for x in js] for js in jobs])
    for js in jobs:
        for x in js:
            rec.see(('first', x[0], x[1], x[4]), first=1)
    for x in lookups:
        rec.see(('lookup',) + tuple(x), lookups=1)
    rec.count('pauses put in', res['pauses'])
    rec.count('thread switches seen between operations', res['switches'])


def run(ck):
    import p05
    subs = [s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS]
    ck.map(first, [(subs, ck.pick(4, 6))] * ck.pick(24, 200), 'first', chunk=1)
    p05.everything()
    before, n = deep.snapshot()
    ck.rec.count('objects watched', n)
    ck.map(session, [(subs, 40)] * ck.pick(200, 1000), 'sessions', chunk=1)
    named = [s for s in subs if S.nodes[s[2]].get('nv')]
    ck.rec.count('types with names', len(named))
    ck.map(session, [(named[i::12], 60) for i in range(12)] + [([s], 30) for s in named], 'names', chunk=1)
    special = hot(subs)
    ck.rec.count('types with code of their own', len(special))
    # together, one type for each piece of such code
    kinds = {}
    for s in hot(subs, 0):
        c = getattr(module(s[0]), s[1])
        own = tuple(sorted((b.__module__, b.__name__, a) for b in c.__mro__ if b.__module__.startswith('pyasn1_modules')
                           for a, f in vars(b).items() if isinstance(f, (types.FunctionType, property, classmethod, staticmethod))))
        kinds.setdefault(own, []).append(s)
    ck.rec.count('pieces of own code', len(kinds))
    mine = [x for k, v in sorted(kinds.items()) if k for x in v[:2]]
    ck.map(first, [(subs, 4, mine or subs)] * ck.pick(16, 100), 'imports', chunk=1)
    if kinds:
        reps = [x for k, v in sorted(kinds.items()) for x in v[:2]]
        ck.map(session, [(ck.rng('t%d' % i).sample(reps, min(len(reps), 6)), 60, [show, show, decode, build]) for i in range(40)], 'together', chunk=1)
    if len(special) > 40:
        top = hot(subs, 0)
        special = ck.rng('special').sample(top, min(20, len(top))) + ck.rng('more').sample(special, 20)
    ck.map(session, [([s], 60) for s in special for _ in range(4)], 'special', chunk=1)
    ck.map(pemreaders, range(ck.pick(10, 40)), 'pem', chunk=1)
    ck.map(around, [(subs, 40, 12)] * ck.pick(8, 32), 'around', chunk=1)
    k = 0
    while ck.thorough and ck.elapsed() < 420:
        ck.map(session, [(subs, 60)] * 400, 's%d' % k, chunk=1, budget=480)
        k += 1


def around(rec, item, rng):
    """everything published is the same after several sessions"""
    subs, nops, k = item
    before, _ = deep.snapshot()
    for _ in range(k):
        session(rec, (subs, nops), rng)
    if stuck:
        return
    after, _ = deep.snapshot()
    ch = deep.changed(before, after)
    if ch:
        roots = ['%s.%s' % c for c in ch]
        rec.bad('changed:' + roots[0], 'published definitions changed while used by threads: %s (%d names)' % (', '.join(roots[:6]), len(roots)))
