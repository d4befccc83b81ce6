"""Values and types can be copied, pickled and handed to other processes."""
import copy
import os
import pickle
import struct
import subprocess
import sys

import harness
import ref
from bridge import tag
from work import AMBIGUOUS, B, R, S, bridge, der_decoder, der_encoder, dose, hot, module, nontrivial, rep, short, spread, subjects, values

RULE = ('for each published type: built and decoded values, open content resolved and not, and the empty type itself, '
        'plus every ready-made object, registry entry and constant, pickled with each protocol, read by a fresh '
        'interpreter that imports nothing else first, written there, compared with the independent encoding; and '
        'copied within the process. Distinct by (type, octets, form).')
MIN = 2000
ASSUMPTIONS = ['copy.deepcopy is not offered by pyasn1 for constructed types: not counted']

PEER = r'''
import pickle, struct, sys
sys.path[:0] = sys.argv[1:]
out = sys.stdout.buffer
inp = sys.stdin.buffer
while True:
    h = inp.read(9)
    if len(h) < 9:
        break
    kind, n, m = struct.unpack('>BII', h)
    data, der = inp.read(n), inp.read(m)
    try:
        o = pickle.loads(data)
        if kind == 0:       # a value
            from pyasn1.codec.der import encoder
            ans = encoder.encode(o)
        elif kind == 1:     # a type: read and write
            from pyasn1.codec.der import decoder, encoder
            x, rest = decoder.decode(der, asn1Spec=o)
            ans = encoder.encode(x) + bytes(rest)
        else:               # a value that travels back
            ans = pickle.dumps(o, 4)
        r = b'+' + ans
    except BaseException as e:
        r = b'-' + ('%s: %s' % (type(e).__name__, str(e)[:300])).encode('utf-8', 'replace')
    out.write(struct.pack('>I', len(r)) + r)
    out.flush()
'''


class Peer(object):
    """a fresh interpreter that only unpickles"""
    def __init__(self):
        import pyasn1
        site = os.path.dirname(os.path.dirname(pyasn1.__file__))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='random')
        self.p = subprocess.Popen([sys.executable, '-c', PEER, bridge.REPO, site], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def ask(self, kind, data, der=b''):
        try:
            self.p.stdin.write(struct.pack('>BII', kind, len(data), len(der)) + data + der)
            self.p.stdin.flush()
            n = struct.unpack('>I', self.p.stdout.read(4))[0]
            r = self.p.stdout.read(n)
        except (OSError, struct.error):
            return False, 'the receiving process died'
        return r[:1] == b'+', r[1:]

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait(60)


def send(rec, peer, where, form, kind, o, want, proto, bad):
    try:
        data = pickle.dumps(o, proto)
    except Exception as e:
        bad('pickle', '%s cannot be pickled: %s' % (form, short(e)))
        return
    rec.count('pickled octets', len(data))
    ok, ans = peer.ask(kind, data, want)
    if not ok:
        bad('unpickle', '%s: %s' % (form, ans if isinstance(ans, str) else ans.decode()))
    elif ans != want:
        bad('arrives', '%s arrives in another process as %s' % (form, ans.hex()[:200]))


def proto(nid, rng):
    """the old protocols cannot take pyasn1's structures"""
    return rng.randrange(0 if S.nodes[nid]['k'] not in ref.CONSTRUCTED else 2, 6)


def job(rec, items, rng):
    peer = Peer()
    try:
        for item in items:
            one(rec, peer, item, rng)
    finally:
        peer.close()


def one(rec, peer, item, rng):
    (m, k, nid), nrand = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    opened = ref.Gen(S, rng, True)
    for i, v in enumerate(list(values(nid, rng, -1, nrand)) + [opened.random(nid, 40)]):
        want = R.der(nid, v)
        if len(want) > 20000:
            continue
        det = dict(value=rep(v, 1500), der=want.hex())

        def bad(kind, what):
            rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), **det)
        forms = []
        if i % 2 == 0:
            forms.append(('a value put together', B.build(T(), nid, v)))
        if i % 2 or not nontrivial(nid, v):
            try:
                forms.append(('a value read', der_decoder.decode(want, asn1Spec=T(), decodeOpenTypes=rng.random() < 0.3 and 'Open' in repr(v))[0]))
            except Exception as e:
                bad('decode', 'cannot be read: %s' % short(e))
        for form, o in forms:
            try:
                base = der_encoder.encode(o)
            except Exception as e:
                bad('encode', '%s cannot be written: %s' % (form, short(e)))
                continue
            try:
                again = der_encoder.encode(o)
            except Exception:
                # rfc6211: pyasn1 fills in empty parts when it writes
                again = None
            if base != want or again != want:
                # open content pyasn1 writes differently, see P05
                rec.count('not judged')
                continue
            rec.see((nid, want, form) if nontrivial(nid, v) else None, values=1)
            send(rec, peer, where, form, 0, o, want, proto(nid, rng), bad)
            local(rec, where, o, nid, v, want, form, bad)
    det = {}
    v = ref.Gen(S, rng).random(nid, 20)
    want = R.der(nid, v)

    def bad(kind, what):
        rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), der=want.hex())
    rec.see((nid, want, 'type') if nontrivial(nid, v) else None, types=1)
    send(rec, peer, where, 'the type', 1, T(), want, proto(nid, rng), bad)
    tagged(rec, peer, where, T, nid, v, want, rng, bad)
    # by reference
    try:
        if pickle.loads(pickle.dumps(T, 2)) is not T:
            bad('class', 'the class is not found again by its name')
        if copy.deepcopy(T) is not T or copy.copy(T) is not T:
            bad('class', 'the class is copied')
    except Exception as e:
        bad('class', 'the class cannot be handed over: %s' % short(e))


def tagged(rec, peer, where, T, nid, v, want, rng, bad):
    """a variant of the type made on the spot has no name of its own"""
    if S.nodes[nid]['k'] == 'any':
        return
    num = rng.choice([0, 5, 29, 31, 200])
    outer = ref.tlv(2, num, True, want)
    try:
        V = T().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, num))
        o, rest = der_decoder.decode(outer, asn1Spec=V)
        if rest or der_encoder.encode(o) != outer or der_encoder.encode(o) != outer:
            rec.count('tagged variant not judged')
            return
    except Exception:
        rec.count('tagged variant not judged')
        return
    rec.see((nid, outer, 'tagged'), tagged=1)
    send(rec, peer, where, 'a tagged variant of the type', 1, V, outer, proto(nid, rng), bad)
    if rng.random() < 0.3:
        send(rec, peer, where, 'a value of a tagged variant', 0, o, outer, proto(nid, rng), bad)


def local(rec, where, o, nid, v, want, form, bad):
    for name, f in (('copy.copy', copy.copy), ('pickle', lambda x: pickle.loads(pickle.dumps(x, 5)))):
        try:
            x = f(o)
        except Exception as e:
            bad(name, '%s, %s: %s' % (form, name, short(e)))
            continue
        if type(x) is not type(o):
            bad(name, '%s, %s: becomes a %s' % (form, name, type(x).__name__))
            continue
        got = der_encoder.encode(x)
        if got != want:
            bad(name, '%s, %s: is written as %s' % (form, name, got.hex()[:200]))
        if name == 'pickle' and S.nodes[nid]['k'] in ('seq', 'set', 'choice', 'seqof', 'setof'):
            # the copy lives its own life
            try:
                x.clear()
            except Exception:
                continue
            if der_encoder.encode(o) != want:
                bad(name, '%s: emptying the unpickled copy changes the value' % form)


def objects(rec, items, rng):
    """published objects that are values: constants, ready-made objects"""
    peer = Peer()
    try:
        for m, k, want in items:
            o = getattr(module(m), k, None)
            if o is None:
                rec.bad('missing:%s.%s' % (m, k), '%s does not publish %s' % (m, k))
                continue
            where = '%s.%s' % (m, k)
            rec.see((where, want), objects=1)

            def bad(kind, what):
                rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what))
            send(rec, peer, where, 'the object', 0, o, want, rng.choice([2, 4, 5]), bad)
    finally:
        peer.close()


def registry(rec, item, rng):
    name, keys = item
    mm, mk = name.split('.', 1)
    reg = getattr(module(mm), mk, None)
    if reg is None:
        rec.bad('missing:' + name, 'registry %s is gone' % name)
        return
    peer = Peer()
    g = ref.Gen(S, rng)
    try:
        for key in keys:
            kv = tuple(int(x) for x in key.split('.')) if '.' in key else int(key)
            try:
                C = reg[bridge.univ.ObjectIdentifier(kv) if isinstance(kv, tuple) else bridge.univ.Integer(kv)]
            except KeyError:
                continue
            nid = S.maps[name][key]['t']
            want = R.der(nid, g.random(nid, 15))
            where = '%s[%s]' % (name, key)
            rec.see((where, want), registered=1)

            def bad(kind, what):
                rec.bad('%s:%s' % (kind, where), '%s: %s' % (where, what), der=want.hex())
            send(rec, peer, where, 'the registered type', 1, C, want, proto(nid, rng), bad)
    finally:
        peer.close()


def batches(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def run(ck):
    from p05 import everything
    everything()
    subs = spread([s for s in subjects(ck.rec) if s[:2] not in AMBIGUOUS], ck.seed)
    ck.map(job, batches([(s, ck.pick(2, 8)) for s in subs], 12), 'types', chunk=1)
    own = hot(subs)
    ck.map(job, batches([(s, dose(own, 40, 4, 12)) for s in own], 2), 'own', chunk=1)
    objs = [(m, k, bytes.fromhex(d)) for m in sorted(S.modules) for k, (n, d) in sorted(S.modules[m]['values'].items())]
    objs += [(m, k, bytes.fromhex(p['der'])) for m in sorted(S.modules) for k, p in sorted(S.modules[m]['templates'].items()) if 'der' in p]
    ck.map(objects, batches(objs, 100), 'objects', chunk=1)
    keys = []
    for name in sorted(S.maps):
        ks = sorted(S.maps[name])
        if not ck.thorough:
            ks = ck.rng(name).sample(ks, min(len(ks), 12))
        keys += [(name, b) for b in batches(ks, 15)]
    ck.map(registry, keys, 'registries', chunk=1)
    r = 0
    while ck.thorough and ck.elapsed() < 400 and r < 20:
        ck.map(job, batches([(s, 12) for s in subs], 12), 'r%d' % r, chunk=1, budget=450)
        r += 1
