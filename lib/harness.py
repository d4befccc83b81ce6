"""Shared check runner: parallel workloads, three-valued verdicts, replay
files, known findings and evidence.

A check module defines
    LEVEL_RULE   text: how cases are made and what makes one non-trivial
    MIN          least number of evaluations for a verdict
    run(ck)      drives the workload through ck.map / ck.rec
"""
import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

import pyasn1
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
OUT = os.path.join(VERIF, 'evidence')


class Hang(BaseException):
    """an operation used more CPU time than any legitimate one could"""


@contextlib.contextmanager
def cpu_limit(seconds):
    """bounds the CPU time (not the wall time) of the enclosed operation"""
    def fire(sig, frame):
        raise Hang('more than %s s of CPU time' % seconds)
    old = signal.signal(signal.SIGVTALRM, fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def load_findings(pid):
    """key -> text of the findings listed for a property"""
    out = {}
    with open(FINDINGS) as f:
        for line in f:
            p = line.strip().split(' ', 3)
            if p[0] == 'finding:' and p[1] == 'property=' + pid:
                assert p[2].startswith('key='), line
                out[p[2][4:]] = p[3]
    return out


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n * 2 // 3] + ' ... ' + s[-n // 3:]


class Rec(object):
    """What one worker observed."""

    def __init__(self, pid, seed):
        self.pid = pid
        self.seed = seed
        self.n = 0
        self.counts = Counter()
        self.distinct = set()
        self.samples = []
        self.bads = {}
        self.nbad = 0
        self.slowest = 0

    def see(self, ident=None, **counts):
        """one evaluation; ident identifies a non-trivial case"""
        self.n += 1
        if ident is not None:
            if not isinstance(ident, bytes):
                ident = repr(ident).encode('utf-8', 'backslashreplace')
            self.distinct.add(hashlib.blake2b(ident, digest_size=8).digest())
        for k, v in counts.items():
            self.counts[k] += v

    def count(self, k, n=1):
        self.counts[k] += n

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(dict((k, short(v, 200) if not isinstance(v, (int, float)) else v) for k, v in kw.items()))

    def bad(self, key, what, **detail):
        """a violation; key names the mechanism"""
        self.nbad += 1
        if key not in self.bads and len(self.bads) < 200:
            self.bads[key] = (short(what, 500), dict((k, short(v, 4000)) for k, v in detail.items()))

    def merge(self, o):
        self.n += o.n
        self.slowest = max(self.slowest, o.slowest)
        self.counts.update(o.counts)
        self.distinct |= o.distinct
        self.nbad += o.nbad
        self.samples += o.samples[:max(0, 8 - len(self.samples))]
        for k, v in o.bads.items():
            self.bads.setdefault(k, v)


_job = {}
ITEM_CPU = 240   # CPU seconds one item may take; the slowest takes a tenth of that
WORKER_MEMORY = 3 << 30


def _limits():
    """a workload that eats all memory fails alone"""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    if hard == resource.RLIM_INFINITY or hard > WORKER_MEMORY:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, hard))


def _stuck(sig, frame):
    raise Hang('more than %d s of CPU time' % ITEM_CPU)


def _theirs(e):
    """raised in the code under test or by the codec library on it, or for lack of something it publishes"""
    repo = os.path.realpath(os.environ.get('VERIF_REPO') or '/repo') + os.sep
    files = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    lib = os.path.dirname(os.path.realpath(pyasn1.__file__)) + os.sep
    return any(f.startswith(repo) for f in files) or files[-1].startswith(lib) or isinstance(e, AttributeError) and str(e).startswith("module 'pyasn1_modules")


def _worker(arg):
    i, item = arg
    func, pid, seed = _job['func'], _job['pid'], _job['seed']
    rec = Rec(pid, seed)
    rng = random.Random('%s/%s/%s' % (pid, seed, _job['label'] + str(i)))
    signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, ITEM_CPU)
    t = time.process_time()
    try:
        try:
            func(rec, item, rng)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            rec.slowest = time.process_time() - t
    except Hang as e:
        rec.bad('hang', 'no answer while handling %s: %s' % (short(item), e), item=item)
    except MemoryError:
        rec.bad('memory', 'out of memory while handling %s' % short(item), item=item)
    except Exception as e:
        if _theirs(e):
            rec.bad('raises:' + type(e).__name__, 'what works on the pinned code raises %s: %s, while handling %s' % (
                type(e).__name__, short(str(e), 200), short(item, 100)), trace=traceback.format_exc()[-3000:])
            return i, rec, None
        tb = traceback.format_exc()
        return i, rec, 'worker failed on %s: %s' % (short(item, 100), tb[:1500] + ' ... ' + tb[-500:])
    return i, rec, None


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.rec = Rec(pid, seed)
        self.known = load_findings(pid)
        self.known_seen = set()
        self.errors = []
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.notes = {}
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, label=''):
        return random.Random('%s/%s/%s' % (self.pid, self.seed, label))

    def elapsed(self):
        return time.time() - self.t0

    def map(self, func, items, label='', procs=None, chunk=None, budget=None):
        """func(rec, item, rng) over items in forked workers; stops handing
        out items after `budget` seconds of this check"""
        items = list(enumerate(items))
        _job.update(func=func, pid=self.pid, seed=self.seed, label=label)
        procs = procs or min(8, os.cpu_count() or 2)
        chunk = chunk or max(1, len(items) // (procs * 8))
        ctx = multiprocessing.get_context('fork')
        done = 0

        def feed():
            for x in items:
                if budget and self.elapsed() > budget:
                    return
                yield x
        with ctx.Pool(procs, _limits) as pool:
            for i, rec, err in pool.imap(_worker, feed() if budget else items, chunk):
                self.rec.merge(rec)
                done += 1
                if err and len(self.errors) < 5:
                    self.errors.append(err)
                if 'hang' in rec.bads:
                    break
        if done < len(items):
            self.notes['items_left_' + (label or 'main')] = len(items) - done
        return done

    def finish(self, mod):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        new = []
        for k in sorted(self.rec.bads):
            if k in self.known:
                self.known_seen.add(k)
            else:
                new.append(k)
        for k in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        cov = {
            'evaluations': self.rec.n,
            'distinct_nontrivial': len(self.rec.distinct),
            'rule': mod.RULE,
            'samples': self.rec.samples or ['none'],
            'events': dict(self.rec.counts),
        }
        cov['slowest_item_cpu_s'] = round(self.rec.slowest, 1)
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': cov, 'wall_s': round(self.elapsed(), 2), 'violations': len(new),
              'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + self.assumptions,
              'known_findings_seen': sorted(self.known_seen)}
        with open(os.path.join(OUT, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k in new[:int(os.environ.get("VERIF_SHOW", 15))]:
            what, detail = self.rec.bads[k]
            name = ''.join(c if c.isalnum() or c in '._-' else '_' for c in k)[:80]
            path = os.path.join(OUT, 'replay', '%s-%s.json' % (self.pid, name))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': k, 'what': what, 'detail': detail, 'seed': self.seed,
                           'tier': self.tier,
                           'command': 'VERIF_SEED=%d VERIF_TIER=%s /opt/venv/bin/python checks/run.py %s' % (
                               self.seed, self.tier, self.pid)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s: %s' % (k, what))
        if len(new) > 15:
            print('  ... and %d more kinds' % (len(new) - 15))
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations (%d kinds), %.1f s' % (
            self.pid, self.tier, self.seed, self.rec.n, len(self.rec.distinct), self.rec.nbad, len(new), self.elapsed()))
        if new:
            return 1
        if self.errors:
            print('ERROR: %d worker(s) failed: %s' % (len(self.errors), self.errors[0][-2500:]))
            return 3
        if self.rec.n < mod.MIN or len(self.rec.distinct) < mod.MIN // 20:
            print('INCONCLUSIVE: too few events observed (%d, %d distinct; %d wanted)' % (
                self.rec.n, len(self.rec.distinct), mod.MIN))
            return 2
        return 0
