"""PEM blocks and base64 text are extracted exactly, whatever surrounds them."""
import base64
import binascii
import functools
import io
import os
import subprocess
import tempfile

import harness
from work import bridge, short

RULE = ('random files of several PEM blocks (any content and length, any line width the format allows, LF or CRLF, '
        'blank space around lines, other blocks, prose and near-miss markers in between), read block by block with '
        'one or several marker pairs from memory, text files, pipes and objects that offer readline only; truncated '
        'and mismatched blocks; files made by openssl; base64 text in any layout. The oracle is the generator, which '
        'knows what it put in. Non-trivial: at least one block with content; distinct by file text and markers.')
MIN = 15000
LABELS = ['CERTIFICATE', 'RSA PRIVATE KEY', 'PRIVATE KEY', 'ENCRYPTED PRIVATE KEY', 'X509 CRL', 'CERTIFICATE REQUEST',
          'PKCS7', 'CMS', 'X', 'TRUSTED CERTIFICATE', 'CERTIFICATE CHAIN', 'NEW CERTIFICATE REQUEST', 'DSA PRIVATE KEY']
PROSE = ['', ' ', 'subject=/CN=a', 'Bag Attributes', '    localKeyID: 01 02', '-----', '----- BEGIN', 'MIIB', '====',
         'BEGIN CERTIFICATE', '-----BEGIN-----', '\t', '\u00e9\u4e2d', '0', 'friendlyName: Q', '-----END-----', '\x0c']


@functools.lru_cache(None)
def mined():
    """numbers and texts the reader compares with"""
    out = set()

    def walk(c):
        for x in c.co_consts:
            if hasattr(x, 'co_consts'):
                walk(x)
            else:
                out.update(y for y in (x if isinstance(x, (tuple, frozenset)) else [x]) if isinstance(y, (int, str)) and not isinstance(y, bool))
    try:
        with open(os.path.join(bridge.REPO, 'pyasn1_modules', 'pem.py')) as f:
            walk(compile(f.read(), 'pem.py', 'exec'))
    except Exception:
        pass
    return (sorted(x for x in out if isinstance(x, int) and 4 < x < 300000),
            sorted(x for x in out if isinstance(x, str) and 0 < len(x) < 60 and not x.startswith('-----') and '\n' not in x))


def prose(rng):
    r = rng.random()
    words = mined()[1]
    if words and r < 0.1:
        w = rng.choice(words)
        return rng.choice([w, w + 'x', 'x' + w, 'x ' + w + ' y', w + w])
    if r < 0.15:
        return rng.choice('-=#x ') * rng.choice([79, 80, 1000, 9000]) + rng.choice(['', 'x', '-'])
    if r < 0.2:
        return ''.join(chr(rng.randrange(33, 127)) for _ in range(rng.randrange(1, 90)))
    if r < 0.22:
        return '-----BEGIN %s-----' % rng.choice(['OTHER', 'CERT', 'A B'])
    return rng.choice(PROSE)


def marks(label):
    return '-----BEGIN %s-----' % label, '-----END %s-----' % label


def near(label, rng):
    """lines that resemble a start marker but are none"""
    s, e = marks(label)
    x = near_(s, e, rng)
    return x if x.strip() not in [marks(y)[0] for y in LABELS] else s[:-1]


def near_(s, e, rng):
    return rng.choice([s[:-1], s[1:], s + '-', '-' + s, s.lower(), s + ' x', 'x ' + s, s.replace('BEGIN ', 'BEGIN  '), s.replace(' ', ''),
                       s.replace('-----BEGIN', '---- BEGIN'), e, e[:-1], s.replace('BEGIN', 'BEGIN TRUSTED')])


def content(rng):
    r = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 47, 48, 49, 95, 96, 97, 255, 256, 257, 1000, 5000]) if r < 0.6 else rng.randrange(0, 400)
    if mined()[0] and 0.5 < r < 0.6:
        n = rng.choice(mined()[0])
        n = max(0, rng.choice([n, 48 * n, n * 3 // 4]) + rng.choice([-1, 0, 1, 48]))
        n = n if n < 400000 else 100
    if r > 0.97:
        n = rng.randrange(8000, 200000)
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 6000 else rng.randbytes(1) * n


def lay(data, rng):
    """base64 lines; every line holds whole groups of four"""
    b = base64.b64encode(data).decode()
    r = rng.random()
    if r < 0.5:
        w = 64
    elif r < 0.6:
        w = 76
    elif r < 0.7:
        w = max(4, len(b))
    else:
        w = 4 * rng.choice([rng.randrange(1, 40), rng.randrange(1, 5)])
    return [b[i:i + w] for i in range(0, len(b), w)]


class Trickle(io.TextIOBase):
    """a file of the user's own making: lines come one at a time"""
    def __init__(self, text):
        self._f = io.StringIO(text)

    def readable(self):
        return True

    def readline(self, size=-1):
        return self._f.readline(-1 if size is None else size)

    def read(self, size=-1):
        return self._f.read(-1 if size is None else size)


def opened(text, rng, scratch):
    """the text through some kind of file object"""
    r = rng.random()
    if r < 0.5:
        return io.StringIO(text)
    if r < 0.6:
        return Trickle(text)
    if r < 0.9:
        p = os.path.join(scratch, 'f')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return open(p, encoding='utf-8', newline=rng.choice([None, '']), buffering=rng.choice([-1, 16, 1, 4096]))
    a, b = os.pipe()
    if len(text.encode()) > 60000:
        os.close(a)
        os.close(b)
        return io.StringIO(text)
    os.write(b, text.encode())
    os.close(b)
    return os.fdopen(a, 'r', encoding='utf-8')


def fmt(lines, rng):
    nl = rng.choice(['\n', '\n', '\r\n'])
    out = []
    for x in lines:
        if rng.random() < 0.1:
            x = rng.choice([' ', '\t', '  ']) + x
        if rng.random() < 0.1:
            x = x + rng.choice([' ', '\t', '  '])
        out.append(x + nl)
    t = ''.join(out)
    return t[:-len(nl)] if rng.random() < 0.2 else t


def blocks(rec, rng, pem, scratch):
    wanted = rng.sample(LABELS, rng.randrange(1, 5))
    other = [x for x in LABELS if x not in wanted]
    lines, expect = [], []
    many = rng.random() < 0.02
    for _ in range(rng.randrange(60, 140) if many else rng.randrange(0, 6)):
        for _ in range(rng.randrange(0, 4)):
            lines.append(near(rng.choice(wanted), rng) if rng.random() < 0.4 else prose(rng))
        lab = rng.choice(wanted) if rng.random() < 0.75 else rng.choice(other)
        data = content(rng) if not many else rng.randbytes(rng.randrange(0, 60))
        body = lay(data, rng)
        while body and rng.random() < 0.15:
            body.insert(rng.randrange(len(body) + 1), '')
        s, e = marks(lab)
        lines += [s] + body + [e]
        if lab in wanted:
            expect.append((wanted.index(lab), data))
    for _ in range(rng.randrange(0, 4)):
        lines.append(near(rng.choice(wanted), rng) if rng.random() < 0.4 else prose(rng))
    text = fmt(lines, rng)
    f = opened(text, rng, scratch)
    try:
        ms = [marks(x) for x in wanted]
        got = []
        while True:
            try:
                idx, sub = pem.readPemBlocksFromFile(f, *ms)
            except Exception as ex:
                rec.bad('refused', 'a good file is refused: %s' % short(ex), text=text, markers=wanted)
                return
            if idx == -1:
                if sub:
                    rec.bad('ghost', 'no block, yet content %r' % sub[:40], text=text, markers=wanted)
                break
            got.append((idx, bytes(sub)))
            if not isinstance(sub, bytes):
                rec.bad('type', 'content comes as %s' % type(sub).__name__, text=text)
            if len(got) > len(expect):
                break
    finally:
        if hasattr(f, 'close'):
            f.close()
    rec.see((text, tuple(wanted)) if any(d for _, d in expect) else None, blocks=len(expect))
    if got != expect:
        j = next((i for i in range(max(len(got), len(expect))) if got[i:i + 1] != expect[i:i + 1]), 0)
        a, b = got[j:j + 1], expect[j:j + 1]
        kind = 'count' if len(got) != len(expect) else 'index' if a and b and a[0][0] != b[0][0] else 'content'
        rec.bad('blocks-' + kind, 'block %d of %d is read as %s, it is %s' % (j, len(expect), short(a, 120), short(b, 120)), text=text, markers=wanted)
    elif expect:
        rec.sample(text=text, got=repr(got))


def rest(rec, rng, pem, scratch):
    """a file is left just after the block that was read"""
    lab = rng.choice(LABELS)
    data = content(rng)[:3000]
    tail = [prose(rng) for _ in range(rng.randrange(0, 5))]
    s, e = marks(lab)
    f = io.StringIO('\n'.join(['pre'] + [s] + lay(data, rng) + [e] + tail) + '\n')
    got = pem.readPemBlocksFromFile(f, (s, e))
    left = f.read()
    rec.see((lab, data, tuple(tail)))
    if (got[0], bytes(got[1])) != (0, data) or left != ''.join(t + '\n' for t in tail):
        rec.bad('position', 'after a block, %r is left of the file instead of %r' % (left[:80], tail), label=lab)
    # the single-block reader
    f = io.StringIO('\n'.join([s] + lay(data, rng) + [e] + tail) + '\n')
    got = pem.readPemFromFile(f, s, e)
    if bytes(got) != data:
        rec.bad('single', 'readPemFromFile gives %s for %s' % (short(got, 80), short(data, 80)), label=lab)
    s, e = marks('CERTIFICATE')
    f = io.StringIO('\n'.join([near('CERTIFICATE', rng)] + [s] + lay(data, rng) + [e] + tail) + '\n')
    if bytes(pem.readPemFromFile(f)) != data:
        rec.bad('single-default', 'readPemFromFile without markers misses a certificate', data=data)


def broken(rec, rng, pem, scratch):
    """blocks that are not closed, or closed by another kind's end marker"""
    labs = rng.sample(LABELS, 3)
    data = content(rng)[:3000] or b'x'
    if rng.random() < 0.1:
        data = rng.randbytes(rng.randrange(3000, 30000))
    s, e = marks(labs[0])
    lines = [s] + lay(data, rng)
    kind = rng.choice(['open', 'cross', 'near', 'missing'])
    if kind == 'cross':
        lines.append(marks(labs[1])[1])
    elif kind == 'near':
        lines.append(rng.choice([e[:-1], e[1:], e + '-', e.lower(), e.replace('END', 'END '), e.replace('END', 'FIN')]))
    elif kind == 'missing':
        lines = lay(data, rng) + [e]
    ms = [marks(x) for x in labs]
    text = fmt(lines, rng)
    rec.see((kind, text))
    try:
        with harness.cpu_limit(20):
            idx, sub = pem.readPemBlocksFromFile(io.StringIO(text), *ms)
    except (binascii.Error, ValueError):
        rec.count('refused')
        return
    if sub:
        rec.bad('unclosed-' + kind, 'a block that is never closed by its own end marker gives %s' % short(sub, 80), text=text, markers=labs)


def text64(rec, rng, pem, scratch):
    data = content(rng)
    b = base64.b64encode(data).decode()
    t = ''
    w = rng.choice([1, 3, 4, 5, 64, 76, 10 ** 9])
    sep = rng.choice(['\n', '\r\n', ' ', '\n\n', '\t'])
    t = sep.join(b[i:i + w] for i in range(0, len(b), w)) + rng.choice(['', '\n', ' \n'])
    rec.see(('b64', t))
    for name, f in (('readBase64fromText', lambda: pem.readBase64fromText(t)),
                    ('readBase64FromFile', lambda: pem.readBase64FromFile(io.StringIO(t)))):
        try:
            got = f()
        except Exception as e:
            rec.bad('b64:' + name, '%s refuses good text: %s' % (name, short(e)), text=t)
            continue
        if got != data or not isinstance(got, bytes):
            rec.bad('b64:' + name, '%s reads %s as %s' % (name, short(data, 80), short(got, 80)), text=t)


def openssl(rec, item, rng):
    """files and blocks as openssl writes them"""
    pem = bridge.module('pem')
    with tempfile.TemporaryDirectory(prefix='verif-P10-') as d:
        run = lambda *a, **k: subprocess.run(('openssl',) + a, cwd=d, capture_output=True, timeout=120, **k)
        jobs = [(('ecparam', '-genkey', '-name', 'prime256v1', '-noout', '-out', 'k.pem'), ('ec', '-in', 'k.pem', '-outform', 'DER'), 'EC PRIVATE KEY', 'k.pem'),
                (('req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-keyout', 'k2.pem', '-text', '-subj', '/CN=%d' % item, '-out', 'c.pem'),
                 ('x509', '-in', 'c.pem', '-outform', 'DER'), 'CERTIFICATE', 'c.pem'),
                (('req', '-new', '-key', 'k2.pem', '-subj', '/CN=r', '-out', 'r.pem'), ('req', '-in', 'r.pem', '-outform', 'DER'), 'CERTIFICATE REQUEST', 'r.pem'),
                (('crl2pkcs7', '-nocrl', '-certfile', 'c.pem', '-out', 'p.pem'), ('pkcs7', '-in', 'p.pem', '-outform', 'DER'), 'PKCS7', 'p.pem'),
                (('pkcs8', '-topk8', '-in', 'k2.pem', '-passout', 'pass:x', '-out', 'e.pem'), None, 'ENCRYPTED PRIVATE KEY', 'e.pem')]
        for make, der, lab, name in jobs:
            r = run(*make)
            path = os.path.join(d, name)
            if not os.path.exists(path):
                rec.count('openssl step not available')
                continue
            if der:
                want = run(*der).stdout
            else:
                want = subprocess.run(['openssl', 'asn1parse', '-in', name, '-out', 'x.der', '-noout'], cwd=d, capture_output=True)
                want = open(os.path.join(d, 'x.der'), 'rb').read()
            with open(path) as f:
                idx, got = pem.readPemBlocksFromFile(f, marks('NO SUCH'), marks(lab))
            rec.see((lab, got), openssl=1)
            if (idx, got) != (1, want):
                rec.bad('openssl:' + lab, 'the %s openssl wrote is read as (%d, %s)' % (lab, idx, short(got, 80)), want=want.hex())


def job(rec, item, rng):
    pem = bridge.module('pem')
    with tempfile.TemporaryDirectory(prefix='verif-P10-') as d:
        for i in range(item):
            f = rng.choice([blocks, blocks, blocks, rest, broken, text64])
            with harness.cpu_limit(60):
                f(rec, rng, pem, d)


def run(ck):
    ck.map(openssl, range(ck.pick(3, 12)), 'openssl', chunk=1)
    ck.map(job, [400] * ck.pick(240, 8000), 'main', chunk=1, budget=ck.pick(None, 400))
