"""The dump tools show every message whole, prove that it is encoded as it
was, and fail when they cannot."""
import base64
import contextlib
import functools
import io
import os
import runpy
import subprocess
import sys

import harness
import mutate
import ref
from work import R, S, bridge, mine, module, rep, short

RULE = ('each dump tool is run on files of one or several random messages of its kind, with prose and other blocks '
        'around them, on damaged, truncated, wrong-type and non-DER messages, on nested layers, on nothing, and with '
        'unexpected arguments; in process, and a sample as real processes. Its exit status is compared with what the '
        'independent strict decoder says of the input, and its output must contain every component name and number '
        'of every message, in order, and the right count. Distinct by (tool, input).')
MIN = 3000
# tool, [(PEM label, module, type)], words of the summary line
TOOLS = [
    ('pkcs1dump', [('RSA PRIVATE KEY', 'rfc2437', 'RSAPrivateKey'), ('DSA PRIVATE KEY', 'rfc2459', 'DSAPrivateKey')]),
    ('pkcs8dump', [('PRIVATE KEY', 'rfc5208', 'PrivateKeyInfo'), ('ENCRYPTED PRIVATE KEY', 'rfc5208', 'EncryptedPrivateKeyInfo')]),
    ('pkcs10dump', [('CERTIFICATE REQUEST', 'rfc2314', 'CertificationRequest')]),
    ('x509dump', [('CERTIFICATE', 'rfc2459', 'Certificate')]),
    ('x509dump-rfc5280', [('CERTIFICATE', 'rfc5280', 'Certificate')]),
    ('crldump', [('X509 CRL', 'rfc2459', 'CertificateList')]),
    ('cmpdump', [(None, 'rfc4210', 'PKIMessage')]),
    ('crmfdump', [(None, 'rfc2511', 'CertReqMessages')]),
    ('ocspreqdump', [(None, 'rfc2560', 'OCSPRequest')]),
    ('ocsprspdump', [(None, 'rfc2560', 'OCSPResponse')]),
    ('pkcs7dump', [('PKCS7', 'rfc2315', 'ContentInfo')]),
    ('cmcdump', [(None, 'rfc5652', 'ContentInfo')]),
]


def path(tool):
    return os.path.join(bridge.REPO, 'tools', tool + '.py')


@functools.lru_cache(None)
def mined(tool):
    """constants the tool compares with, for the generator"""
    try:
        with open(path(tool)) as f:
            code = compile(f.read(), path(tool), 'exec')
    except Exception:
        return []
    out = set(mine())

    def walk(c):
        for x in c.co_consts:
            if hasattr(x, 'co_consts'):
                walk(x)
            elif isinstance(x, (int, str, bytes)) and not isinstance(x, bool) and not (isinstance(x, str) and len(x) > 60):
                out.add(x)
    walk(code)
    return sorted(out, key=repr)


def spawn(tool, text, *args):
    """as a real process"""
    env = dict(os.environ, PYTHONPATH=bridge.REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, path(tool)] + list(args), input=text.encode(), capture_output=True, env=env, timeout=120)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def call(tool, text, *args):
    """in this process; the exit status is the one a process would give"""
    argv, stdin, out, err = sys.argv, sys.stdin, io.StringIO(), io.StringIO()
    sys.argv, sys.stdin = [path(tool)] + list(args), io.StringIO(text)
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), harness.cpu_limit(60):
            runpy.run_path(path(tool), run_name='__main__')
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except harness.Hang:
        rc = 'hang'
    except Exception as e:
        rc = 1
        out.write('\nTraceback: %s' % short(e))
    finally:
        sys.argv, sys.stdin = argv, stdin
    return rc & 255 if isinstance(rc, int) else rc, out.getvalue()


def block(label, data, rng):
    b = base64.b64encode(data).decode()
    w = rng.choice([64, 64, 76, 4 * 400])
    body = '\n'.join(b[i:i + w] for i in range(0, len(b), w))
    if label is None:
        return body + '\n'
    return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, body, label)


def tokens(nid, v):
    """texts that must appear, in this order, when the value is shown"""
    n = S.nodes[nid]
    k = n['k']
    if k in ('seq', 'set'):
        for f in n['f']:
            if f['n'] in v:
                if S.nodes[f['t']]['k'] in ('seqof', 'setof') and not v[f['n']]:
                    continue
                yield f['n'] + '='
                for t in tokens(f['t'], v[f['n']]):
                    yield t
    elif k == 'choice':
        yield v[0] + '='
        for t in tokens(R.field(n, v[0])['t'], v[1]):
            yield t
    elif k in ('seqof', 'setof'):
        for x in v:
            for t in tokens(n['e'], x):
                yield t
    elif k == 'int' and v not in (n.get('nv') or {}).values():
        yield str(v)
    elif k == 'oid':
        yield '.'.join(str(x) for x in v)
    elif k == 'bool':
        yield 'True' if v else 'False'
    elif k == 'octets' and v and any(c > 126 for c in v):
        yield '0x' + v.hex()


def missing(out, wanted):
    pos = 0
    for i, t in enumerate(wanted):
        j = out.find(t, pos)
        if j < 0:
            return i, t
        pos = j + len(t)
    return None


def strict(nid, data):
    """True when the octets are DER of a conforming value, None when the
    oracle does not decide, False when they are no such thing"""
    try:
        v, rest = R.decode_one(nid, data)
    except ref.Soft:
        return None, None
    except (ref.Bad, RecursionError):
        return False, None
    if rest:
        return None, None
    try:
        if R.conforms(nid, v) and R.der(nid, v) == data:
            return True, v
    except Exception:
        pass
    return None, None


CMC = [(1, 2, 840, 113549, 1, 7, 2), (1, 2, 840, 113549, 1, 9, 16, 1, 6), (1, 3, 6, 1, 5, 5, 7, 12, 2)]
P7 = dict(((1, 2, 840, 113549, 1, 7, j), k) for j, k in enumerate(
    ['Data', 'SignedData', 'EnvelopedData', 'SignedAndEnvelopedData', 'DigestedData', 'EncryptedData'], 1))


def layers(tool, v):
    """False when what is inside a well-formed ContentInfo is not what its
    content type says, so that the tool cannot show it"""
    for _ in range(10):
        if tool == 'pkcs7dump':
            if v['contentType'] not in P7:
                return False
            if 'content' not in v:
                return None
            return None if strict(S.modules['rfc2315']['types'][P7[v['contentType']]], v['content'])[0] is not False else False
        oid, data = v.get('contentType'), v.get('content')
        if oid == (1, 2, 840, 113549, 1, 7, 2):
            r, sd = strict(S.modules['rfc5652']['types']['SignedData'], data)
            if r is False:
                return False
            if not sd:
                return None
            if 'eContent' not in sd['encapContentInfo']:
                return False if sd['encapContentInfo']['eContentType'] in CMC else None
            oid, data = sd['encapContentInfo']['eContentType'], sd['encapContentInfo']['eContent']
        if oid == (1, 2, 840, 113549, 1, 9, 16, 1, 6):
            r, v = strict(S.modules['rfc5652']['types']['ContentInfo'], data)
            if r is False:
                return False
            if not v:
                return None
            continue
        if oid == (1, 3, 6, 1, 5, 5, 7, 12, 2):
            return False if strict(S.modules['rfc6402']['types']['PKIData'], data)[0] is False else None
        return None
    return None


PROSE = ['', 'subject=/CN=x', '-----BEGIN OTHER-----\nAAAA\n-----END OTHER-----', 'Certificate:\n    Data:', '----']


def grown(nid, v, rng, size):
    """the same value with one of its lists made long, or None"""
    spots = {}

    def walk(nid, v, back):
        n = S.nodes[nid]
        if n['k'] == 'choice':
            walk(R.field(n, v[0])['t'], v[1], lambda x: back((v[0], x)))
        elif n['k'] in ('seq', 'set'):
            for f in n['f']:
                if f['n'] in v:
                    walk(f['t'], v[f['n']], lambda x, f=f: back(dict((h['n'], x if h is f else v[h['n']]) for h in n['f'] if h['n'] in v)))
        elif n['k'] in ('seqof', 'setof') and v:
            spots.setdefault(n['e'], []).append((back, v, n['e']))
            for i, x in enumerate(v):
                walk(n['e'], x, lambda y, i=i: back(v[:i] + [y] + v[i + 1:]))
    walk(nid, v, lambda x: x)
    if not spots:
        return None
    back, v, e = rng.choice(spots[rng.choice(sorted(spots))])
    g = ref.Gen(S, rng)
    more = [g.random(e, 3) for _ in range(size)]
    # pyasn1 leaves out empty lists below optional components
    return back(v + [x for x in more if not hollow(x)])


def hollow(v):
    if isinstance(v, dict):
        return not v or any(hollow(x) for x in v.values())
    if isinstance(v, list):
        return not v or any(hollow(x) for x in v)
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and hollow(v[1])


class Round(object):
    def __init__(self, rec, rng, tool, kinds):
        self.rec, self.rng, self.tool, self.kinds = rec, rng, tool, kinds
        self.g = ref.Gen(S, rng)
        ref.MINED[:] = mined(tool)
        self.nids = [S.modules[m]['types'][k] for _, m, k in kinds]

    def one(self):
        i = self.rng.randrange(len(self.kinds))
        nid = self.nids[i]
        if self.tool in ('pkcs7dump', 'cmcdump'):
            v, inner = self.layered()
        else:
            v, inner = self.g.random(nid, self.rng.choice([5, 20, 60, 150])), []
            if self.rng.random() < 0.1:
                v = self.g.minimal(nid)
        return i, nid, v, R.der(nid, v), inner

    def layered(self):
        rng, g = self.rng, self.g
        if self.tool == 'pkcs7dump':
            j, k = rng.choice(list(enumerate(['Data', 'SignedData', 'EnvelopedData', 'SignedAndEnvelopedData', 'DigestedData', 'EncryptedData'], 1)))
            inid = S.modules['rfc2315']['types'][k]
            x = g.random(inid, 40)
            return {'contentType': (1, 2, 840, 113549, 1, 7, j), 'content': R.der(inid, x)}, [(inid, x)]
        p, sd = S.modules['rfc6402']['types']['PKIData'], S.modules['rfc5652']['types']['SignedData']
        x = g.random(p, 40)
        y = g.random(sd, 30)
        inner = [(sd, y)]
        if rng.random() < 0.8:
            y['encapContentInfo'] = {'eContentType': (1, 3, 6, 1, 5, 5, 7, 12, 2), 'eContent': R.der(p, x)}
            inner.append((p, x))
        else:
            y['encapContentInfo'] = {'eContentType': (1, 2, 840, 113549, 1, 7, 1), 'eContent': b'abc'}
        data, oid = R.der(sd, y), (1, 2, 840, 113549, 1, 7, 2)
        ci = S.modules['rfc5652']['types']['ContentInfo']
        for _ in range(rng.choice([0, 0, 1, 2])):
            w = {'contentType': oid, 'content': data}
            inner.insert(0, (ci, w))
            data, oid = R.der(ci, w), (1, 2, 840, 113549, 1, 9, 16, 1, 6)
        return {'contentType': oid, 'content': data}, inner

    def words(self, nid, v, data, inner):
        for n, x in [(nid, R.decode(nid, data))] + [(n, R.decode(n, R.der(n, x))) for n, x in inner]:
            for t in tokens(n, x):
                yield t

    def big(self, runner):
        """a message with one very long list in it"""
        for _ in range(20):
            i = self.rng.randrange(len(self.kinds))
            nid = self.nids[i]
            if self.tool in ('pkcs7dump', 'cmcdump'):
                v, inner = self.layered()
            else:
                v, inner = self.g.random(nid, self.rng.choice([40, 100])), []
            w = grown(nid, v, self.rng, self.rng.randrange(70, 300))
            if inner:
                # what is inside grows
                j, x = inner[-1]
                w = grown(j, x, self.rng, self.rng.randrange(70, 300))
                if w is None or not R.conforms(j, w) or self.tool == 'cmcdump':
                    continue
                w, inner = dict(v, content=R.der(j, w)), [(j, w)]
            if w is not None and not hollow(w) and R.conforms(nid, w):
                der = R.der(nid, w)
                if len(der) < 30000:
                    self.rec.count('long list')
                    return self.good(runner, [(i, nid, w, der, inner)])

    def crowd(self, runner):
        """very many messages"""
        if self.kinds[0][0] is None or self.tool == 'pkcs7dump':
            return
        few = []
        while len(few) < 9:
            m = self.one()
            if len(m[3]) < 500 or self.rng.random() < 0.02:
                few.append(m)
        self.rec.count('crowd')
        self.good(runner, [self.rng.choice(few) for _ in range(self.rng.choice([130, 270]))])

    def good(self, runner, msgs=None):
        rng = self.rng
        many = self.kinds[0][0] is not None and self.tool != 'pkcs7dump'
        if msgs is None:
            msgs = [self.one() for _ in range(rng.choice([0, 1, 2, 3, 5]) if many else 1)]
        text = ''
        for i, nid, v, data, inner in msgs:
            if many and rng.random() < 0.5:
                text += rng.choice(PROSE) + '\n'
            if many and rng.random() < 0.15:
                data += b'\x05\x00'        # the tools set trailing octets aside
            text += block(self.kinds[i][0], data, rng)
        if many and rng.random() < 0.3:
            text += rng.choice(PROSE)
        rc, out = runner(self.tool, text)
        self.rec.see((self.tool, text) if msgs else None, good=1, messages=len(msgs), **{self.tool: 1})
        if rc != 0:
            return self.bad('fails', 'good input, exit status %s: %s' % (rc, out[-300:]), text)
        lack = missing(out, [t for i, nid, v, data, inner in msgs for t in self.words(nid, v, data, inner)])
        if lack:
            return self.bad('omits', 'the output lacks %r (item %d) or has it out of order' % (lack[1][:80], lack[0]), text, out=out)
        if many:
            last = out.rstrip().splitlines()[-1] if out.strip() else ''
            digits = [w for w in last.split() if w.isdigit()]
            if digits != [str(len(msgs))]:
                self.bad('count', '%d message(s), summary says %r' % (len(msgs), last[:100]), text)
        if msgs:
            self.rec.sample(tool=self.tool, input=text[:80], output=out[:100])

    def damaged(self, runner):
        rng = self.rng
        i, nid, v, data, inner = self.one()
        if len(data) > 2500:
            return
        if rng.random() < 0.3:
            muts = rng.sample([('cut', x) for x in mutate.cuts(data, rng, 6)], min(3, len(data) - 1))
        elif rng.random() < 0.15 and data[1] < 128:
            muts = [('long length', data[:1] + b'\x81' + data[1:])]
        elif rng.random() < 0.1 and data[0] & 0x20 and data[1] < 128:
            muts = [('indefinite', data[:1] + b'\x80' + data[2:] + b'\x00\x00')]
        else:
            muts = list(mutate.mutants(data, rng, 3))
        for op, x in muts:
            if op in ('long length', 'indefinite'):
                verdict = False
            else:
                verdict, got = strict(nid, x)
                if got is not None and self.tool in ('pkcs7dump', 'cmcdump'):
                    verdict = layers(self.tool, got)
                    self.rec.count('layer damaged', verdict is False)
            lead, many = '', self.kinds[0][0] is not None and self.tool != 'pkcs7dump'
            if not x or not x.strip(b'\0'):
                continue
            if many and rng.random() < 0.3:
                j, n2, v2, d2, i2 = self.one()
                lead = block(self.kinds[j][0], d2, rng)
            text = lead + block(self.kinds[i][0], x, rng)
            if verdict is not False:      # the good ones are made from values
                self.rec.count('undecided')
                continue
            rc, out = runner(self.tool, text)
            self.rec.see((self.tool, text), **{'damaged': 1, self.tool: 1})
            if rc == 'hang':
                self.bad('hang', 'no answer after %s' % op, text)
            elif rc == 0:
                self.bad('status', 'exit status %s after %s, though the input is not DER of the type' % (rc, op), text)

    def inside(self, runner):
        """a well-formed wrapper around a layer that is none"""
        rng = self.rng
        v, inner = self.layered()
        if self.tool == 'pkcs7dump':
            what, x = 'indefinite', v['content']
            if not x[0] & 0x20:
                x = bytes([x[0] | 0x20, 0x80]) + x + b'\0\0'
            elif x[1] < 128:
                x = x[:1] + b'\x80' + x[2:] + b'\0\0'
            else:
                x = x[:1] + b'\x80' + x[2 + (x[1] & 127):] + b'\0\0'
            v['content'] = x
        else:
            j, x = rng.choice(inner)
            data, what = R.der(j, x), rng.choice(['lacking', 'rest', 'long length'])
            sd = S.modules['rfc5652']['types']['SignedData']
            if what == 'lacking':
                y = dict(inner[[k for k, _ in inner].index(sd)][1])
                y['encapContentInfo'] = {'eContentType': rng.choice(CMC)}
                new, j = R.der(sd, y), sd
                old = R.der(sd, inner[[k for k, _ in inner].index(sd)][1])
            elif what == 'rest':
                old, new = data, data + b'\x05\x00'
            else:
                old, new = data, (data[:1] + b'\x81' + data[1:]) if data[1] < 128 else data[:1] + bytes([data[1] + 1, 0]) + data[2:]
            v = self.rewrap(v, inner, old, new)
            if v is None:
                return
        data = R.der(self.nids[0], v)
        text = block(self.kinds[0][0], data, rng)
        rc, out = runner(self.tool, text)
        self.rec.see((self.tool, text), **{'inside ' + what: 1})
        if rc == 0:
            self.bad('inside', 'success though a layer inside is not DER of its type: %s' % what, text)

    def rewrap(self, v, inner, old, new):
        """the octets of one layer replaced, those around it written again"""
        if v.get('content') == old:
            return dict(v, content=new)
        for j, x in reversed(inner):
            was = R.der(j, x)
            if 'content' in x and x['content'] == old:
                x = dict(x, content=new)
            elif isinstance(x.get('encapContentInfo'), dict) and x['encapContentInfo'].get('eContent') == old:
                x = dict(x, encapContentInfo=dict(x['encapContentInfo'], eContent=new))
            else:
                continue
            old, new = was, R.der(j, x)
        return dict(v, content=new) if v.get('content') == old else None

    def odd(self, runner):
        rng = self.rng
        if self.kinds[0][0] is None and rng.random() < 0.2:
            i, nid, v, data, inner = self.one()
            more = rng.choice([b'\x05\x00', b'\0', b'\0\0', data, b'\x30\x00', b'x'])
            text = block(None, data + more, rng)
            rc, out = runner(self.tool, text)
            self.rec.see((self.tool, text), followed=1)
            if rc == 0:
                self.bad('followed', 'success though %s follows the message' % more.hex()[:40], text)
            return
        if self.tool in ('pkcs7dump', 'cmcdump') and rng.random() < 0.4:
            return self.inside(runner)
        if self.tool == 'pkcs7dump' and rng.random() < 0.7:
            return self.foreign(runner)
        what = rng.choice(['args', 'empty', 'noise'])
        i, nid, v, data, inner = self.one()
        text = block(self.kinds[i][0], data, rng)
        if what == 'args':
            rc, out = runner(self.tool, text, *rng.choice([['x'], ['--help'], ['a', 'b'], ['-x']]))
            if rc == 0 or 'sage' not in out:
                self.bad('usage', 'unexpected arguments: exit status %s, output %r' % (rc, out[:100]), text)
        elif what == 'empty' or self.kinds[0][0] is None or self.tool == 'pkcs7dump':
            rc, out = runner(self.tool, '')
            # the two layered tools need a message
            if (rc == 0) == (self.tool in ('pkcs7dump', 'cmcdump')):
                self.bad('empty', 'empty input gives exit status %s' % rc, '')
        else:
            text = ''.join(rng.choice(PROSE) + '\n' for _ in range(4)) + block('SOMETHING ELSE', data, rng)
            rc, out = runner(self.tool, text)
            if rc != 0 or [w for w in out.split() if w.isdigit()] != ['0']:
                self.bad('noise', 'no message in the input: exit status %s, output %r' % (rc, out[:100]), text)
        self.rec.see((self.tool, what, text), **{what: 1})

    def foreign(self, runner):
        """content of a type the tool has no definition for, or of another"""
        rng = self.rng
        v, inner = self.layered()
        if rng.random() < 0.5:
            v['content'] = R.der(S.modules['rfc2315']['types']['Data'], bytes(rng.getrandbits(8) for _ in range(rng.randrange(9))))
        v['contentType'] = rng.choice([(1, 2, 840, 113549, 1, 7, 7), (1, 2, 840, 113549, 1, 7), (1, 2, 3), (1, 2, 840, 113549, 1, 7, 1, 1),
                                       rng.choice(sorted(P7))])
        if layers(self.tool, v) is not False:
            return
        data = R.der(S.modules['rfc2315']['types']['ContentInfo'], v)
        text = block('PKCS7', data, rng)
        rc, out = runner(self.tool, text)
        self.rec.see((self.tool, text), foreign=1)
        if rc == 0:
            self.bad('foreign', 'success on content type %s with content %s' % (v['contentType'], v['content'].hex()[:60]), text)

    def bad(self, kind, what, text, **d):
        self.rec.bad('%s:%s' % (kind, self.tool), '%s: %s' % (self.tool, what), input=text, **d)


def job(rec, item, rng):
    tool, kinds, n, real = item
    r = Round(rec, rng, tool, kinds)
    for i in range(n):
        runner = spawn if real else call
        f = rng.choice([r.good, r.good, r.damaged, r.damaged, r.damaged, r.odd if rng.random() < 0.5 else r.good])
        f(runner)
        rec.count('as process' if real else 'in process')
    if not real:
        for _ in range(6):
            r.big(call)
        r.crowd(call)


def run(ck):
    for tool, kinds in TOOLS:
        if not os.path.exists(path(tool)):
            ck.rec.bad('tool:' + tool, 'tools/%s.py is gone' % tool)
    rounds = 0
    while rounds == 0 or (ck.thorough and ck.elapsed() < 400):
        ck.map(job, [(t, k, 60, False) for t, k in TOOLS for _ in range(4)] + [(t, k, 8, True) for t, k in TOOLS],
               'r%d' % rounds, chunk=1, budget=480)
        rounds += 1
