#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--seed N]

Runs the check of one property against the working tree in /repo (or
$VERIF_REPO).  Exit 0: held on everything observed; 1: VIOLATION lines
printed; 2: too little observed; 3: the check itself failed.
"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import harness  # noqa: E402


def selftest():
    """the oracle against itself, without the code under test"""
    import random
    import ref
    spec = ref.Spec()
    r = ref.Ref(spec)
    g = ref.Gen(spec, random.Random(1))
    n = 0
    for m, k, nid in spec.types():
        if k == 'ChangeSubjectName':
            continue
        v = g.random(nid, 30)
        d = r.der(nid, v)
        assert r.der(nid, r.decode(nid, d)) == d, (m, k)
        n += 1
    assert r.der(next(t[2] for t in spec.types() if t[1] == 'CertificateSerialNumber'), 255).hex() == '020200ff'
    print('selftest: %d types' % n)
    return 0


def main(argv):
    if argv[0] == 'selftest':
        return selftest()
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    ck = harness.Check(pid, tier, seed)
    # never trust cached bytecode: compile what is in the tree now
    sys.pycache_prefix = os.path.join(ck.scratch, 'pycache')
    sys.setrecursionlimit(5000)
    try:
        try:
            import bridge
            bridge.where()
            mod = importlib.import_module(pid.lower())
        except harness.Hang:
            raise
        mod.run(ck)
    except Exception:
        tb = traceback.format_exc()
        ck.errors.append(tb if len(tb) < 3000 else tb[:1500] + ' ... ' + tb[-1500:])
        if 'mod' not in locals():
            print('ERROR: ' + ck.errors[-1])
            return 3
    return ck.finish(mod)


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
