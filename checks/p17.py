"""Messages made by another implementation (OpenSSL) are read as what they
are and written back octet for octet."""
import base64
import os
import subprocess

from p05 import everything
from work import der_decoder, der_encoder, module, short

RULE = ('certificates, CRLs, requests, PKCS#7/CMS, PKCS#8, PKCS#12, keys, OCSP, time-stamp and CMP messages made by '
        'OpenSSL from random settings, read with every applicable type of the package, open content resolved and not, '
        'compared with the settings and re-encoded. Distinct by (type, octets).')
MIN = 600
ASSUMPTIONS = ['OpenSSL writes what its settings say (its own parser is not consulted)']

U = __import__('bridge').univ
ENV = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'OPENSSL_CONF': '/dev/null', 'HOME': '/nonexistent', 'LC_ALL': 'C'}


class Skip(Exception):
    """openssl did not make the message"""


def ossl(d, *args, **kw):
    p = subprocess.run(['openssl'] + [str(a) for a in args], cwd=d, env=ENV, input=kw.get('input', b''),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode and not kw.get('any'):
        raise Skip('openssl %s: %s' % (' '.join(str(a) for a in args[:6]), p.stderr.decode('utf-8', 'replace')[-300:]))
    return p.stdout


def write(d, name, text):
    with open(os.path.join(d, name), 'wb') as f:
        f.write(text.encode('utf-8') if isinstance(text, str) else text)
    return name


def read(d, name):
    try:
        with open(os.path.join(d, name), 'rb') as f:
            return f.read()
    except OSError:
        raise Skip('no %s' % name)


# ---------------------------------------------------------------- looking

def at(o, path):
    """a.b.0.#1 : component by name, member by index, component by position"""
    for p in path.split('.') if path else []:
        if p.startswith('#'):
            o = o.getComponentByPosition(int(p[1:]))
        elif p.isdigit():
            o = o[int(p)]
        else:
            o = o[p]
    return o


def text(o):
    while isinstance(o, U.Choice):
        o = o.getComponent()
    if isinstance(o, (U.Any,)) or type(o) is U.OctetString:
        o = der_decoder.decode(bytes(o))[0]
    return str(o)


def names(n):
    """a distinguished name as the relative names' sets of (type, text)"""
    return [sorted((str(a[0]), text(a[1])) for a in rdn) for rdn in n.getComponentByPosition(0)]


def general(n):
    """a GeneralName as (kind, value)"""
    k = n.getName()
    v = n.getComponent()
    if k == 'iPAddress':
        return k, bytes(v)
    if k == 'directoryName':
        return k, names(v)
    if k == 'otherName':
        return k, (str(v[0]), bytes(v[1]))
    return k, str(v)


def has(o, path):
    """whether an optional component is there, without making it"""
    path, _, name = path.rpartition('.')
    o = at(o, path)
    c = o.getComponentByName(name, default=None, instantiate=False)
    return c is not None and c.isValue


def bits(o):
    b = tuple(o)
    return {i for i, x in enumerate(b) if x}


def opened(rec, o, where, bad, m):
    """every component whose governor is registered holds the registered type"""
    if isinstance(o, (U.Sequence, U.Set)):
        types = o.componentType
        for i, nt in enumerate(types.namedTypes):
            if not o.isValue and not len(o):
                continue
            c = o.getComponentByPosition(i, default=None, instantiate=False)
            if c is None or not c.isValue:
                continue
            ot = nt.openType
            if ot:
                try:
                    g = o[ot.name]
                    want = ot[g]
                except KeyError:
                    want = None
                if want is not None:
                    vals = list(c) if isinstance(nt.asn1Object, (U.SetOf, U.SequenceOf)) else [c]
                    for x in vals:
                        if type(x) is type(want) or isinstance(x, type(want)):
                            rec.count('opened')
                        else:
                            bad('unopened:%s.%s' % (m, type(o).__name__), '%s of %s with %s is %s, not %s' % (
                                nt.name, type(o).__name__, short(str(g)), type(x).__name__, type(want).__name__))
            opened(rec, c, where, bad, m)
    elif isinstance(o, (U.SequenceOf, U.SetOf)):
        for c in o:
            opened(rec, c, where, bad, m)
    elif isinstance(o, U.Choice) and o.isValue:
        opened(rec, o.getComponent(), where, bad, m)


def tlvs(b):
    """the elements b consists of as (tag, content), None if it does not"""
    out, i = [], 0
    while i < len(b):
        try:
            t, n = b[i], b[i + 1]
            i += 2
            if t & 31 == 31:
                return None
            if n & 128:
                k = n & 127
                n = int.from_bytes(b[i:i + k], 'big')
                i += k
        except IndexError:
            return None
        if i + n > len(b):
            return None
        out.append((t, b[i:i + n]))
        i += n
    return out


def pack(t, c):
    n = len(c)
    if n < 128:
        return bytes([t, n]) + c
    k = (n.bit_length() + 7) // 8
    return bytes([t, 128 | k]) + n.to_bytes(k, 'big') + c


def unwrapped(b):
    """the octets with every key identifier extension one OCTET STRING short"""
    parts = tlvs(b)
    if parts is None:
        return b
    if len(parts) > 1 and parts[0] == (6, bytes.fromhex('551d0e')) and parts[-1][0] == 4:
        inner = tlvs(parts[-1][1])
        if inner and len(inner) == 1 and inner[0][0] == 4:
            parts[-1] = (4, inner[0][1])
    return b''.join(pack(t, unwrapped(c) if t & 32 else c) for t, c in parts)


def judge(rec, label, der, types, facts, detail=None, again_too=True):
    """facts: (what, function of the value, expected); a fact whose function
    takes two arguments also gets whether open content is resolved"""
    for t in types:
        m, k = t.split('.')
        T = getattr(module(m), k, None)
        if T is None:
            rec.bad('missing:' + t, '%s is not published' % t)
            continue
        for opn in (False, True):
            def bad(key, what):
                rec.bad('%s' % key, '%s read as %s%s: %s' % (label, t, ' with open content' if opn else '', what),
                        der=der.hex(), settings=short(str(detail), 3000))
            rec.see((t, opn, der), messages=1)
            rec.count(label.split()[0] + (' opened' if opn else ' plain'))
            try:
                o, rest = der_decoder.decode(der, asn1Spec=T(), decodeOpenTypes=opn)
            except Exception as e:
                bad('decode:' + t, short(e))
                continue
            if rest:
                bad('rest:' + t, '%d octets left over' % len(rest))
            if opn:
                opened(rec, o, label, bad, m)
            for f in facts:
                what, get, want = f[:3]
                if len(f) > 3 and not f[3](t, opn):
                    continue
                try:
                    got = get(o) if callable(get) else conv(at(o, get), want)
                except Exception as e:
                    bad('fact:%s:%s' % (t, what), '%s cannot be read: %s' % (what, short(e)))
                    continue
                rec.count('facts')
                if got != want:
                    bad('fact:%s:%s' % (t, what), '%s is %s, not %s' % (what, short(repr(got)), short(repr(want))))
            try:
                again = der_encoder.encode(o)
            except Exception as e:
                bad('encode:' + t, short(e))
                continue
            if again != der and again_too:
                if opn and again == unwrapped(der):
                    rec.bad('unwrapped-octet-string-content', 'key identifier written without its OCTET STRING', der=der.hex())
                    continue
                at_ = next((i for i in range(min(len(again), len(der))) if again[i] != der[i]), min(len(again), len(der)))
                rec.bad('again:' + t, '%s read as %s%s is written back as other octets, from octet %d: %s, not %s' % (
                    label, t, ' with open content' if opn else '', at_, again[at_:at_ + 20].hex(), der[at_:at_ + 20].hex()),
                    der=der.hex(), again=again.hex(), settings=short(str(detail), 3000))


def conv(o, want):
    if isinstance(want, bool):
        return bool(o)
    if isinstance(want, int):
        return int(o)
    if isinstance(want, bytes):
        return bytes(o)
    if isinstance(want, str):
        return text(o) if isinstance(o, (U.Choice, U.Any)) else str(o)
    return o


# ---------------------------------------------------------------- settings

ATTRS = [('CN', '2.5.4.3', 60), ('O', '2.5.4.10', 60), ('OU', '2.5.4.11', 60), ('ST', '2.5.4.8', 60), ('L', '2.5.4.7', 60),
         ('SN', '2.5.4.4', 30), ('GN', '2.5.4.42', 30), ('title', '2.5.4.12', 30), ('initials', '2.5.4.43', 5),
         ('generationQualifier', '2.5.4.44', 5), ('pseudonym', '2.5.4.65', 20), ('name', '2.5.4.41', 30),
         ('C', '2.5.4.6', 2), ('serialNumber', '2.5.4.5', 30), ('dnQualifier', '2.5.4.46', 20),
         ('emailAddress', '1.2.840.113549.1.9.1', 40), ('DC', '0.9.2342.19200300.100.1.25', 20),
         ('street', '2.5.4.9', 20), ('UID', '0.9.2342.19200300.100.1.1', 10), ('businessCategory', '2.5.4.15', 10)]
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
WIDE = 'äöüßéЖдя中文€'


def word(rng, n, wide=False):
    s = ''.join(rng.choice(ALNUM) for _ in range(rng.randint(1, n)))
    if wide and rng.random() < 0.4:
        s = s[:max(1, n // 4)] + ''.join(rng.choice(WIDE) for _ in range(rng.randint(1, max(1, n // 4))))
    return s[:n]


def dn(rng, n=None, wide=True):
    """configuration lines and the expected relative names"""
    lines, want = [], []
    for i in range(n or rng.randint(1, 6)):
        a, oid, mx = rng.choice(ATTRS)
        if a in ('C',):
            v = ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(2))
        elif a in ('serialNumber', 'dnQualifier', 'DC'):
            v = word(rng, mx)
        elif a == 'emailAddress':
            v = '%s@%s.example' % (word(rng, 10), word(rng, 8))
        else:
            v = word(rng, mx, wide)
        multi = want and rng.random() < 0.25
        lines.append('%d.%s%s = %s' % (i, '+' if multi else '', a, v))
        if multi:
            want[-1].append((oid, v))
            want[-1].sort()
        else:
            want.append([(oid, v)])
    return lines, want


def oid(rng):
    return '1.3.6.1.4.1.%d.%d' % (rng.randint(50000, 60000), rng.choice([0, 1, 127, 128, 16384, 2 ** 31 - 1]))


def gname(rng, cfg):
    """configuration text and expected (kind, value)"""
    c = rng.randrange(8)
    if c == 0:
        v = '%s@%s.example' % (word(rng, 8), word(rng, 8))
        return 'email:' + v, ('rfc822Name', v)
    if c == 1:
        v = word(rng, 12) + '.example'
        return 'DNS:' + v, ('dNSName', v)
    if c == 2:
        v = 'http://%s.example/%s' % (word(rng, 8), word(rng, 8))
        return 'URI:' + v, ('uniformResourceIdentifier', v)
    if c == 3:
        b = bytes(rng.randrange(256) for _ in range(4))
        return 'IP:' + '.'.join(map(str, b)), ('iPAddress', b)
    if c == 4:
        b = bytes(rng.randrange(256) for _ in range(16))
        return 'IP:' + ':'.join('%x' % (b[i] * 256 + b[i + 1]) for i in range(0, 16, 2)), ('iPAddress', b)
    if c == 5:
        v = oid(rng)
        return 'RID:' + v, ('registeredID', v)
    if c == 6:
        s = 'dn%d' % len(cfg)
        lines, want = dn(rng, wide=False)
        cfg.append('[%s]\n%s' % (s, '\n'.join(lines)))
        return 'dirName:' + s, ('directoryName', want)
    v, s = oid(rng), word(rng, 20)
    return 'otherName:%s;UTF8:%s' % (v, s), ('otherName', (v, bytes([12, len(s)]) + s.encode()))


def gnames(rng, cfg, n=5):
    sec = 'gn%d' % len(cfg)
    cfg.append('')
    here = len(cfg) - 1
    lines, want = [], []
    for i in range(rng.randint(1, n)):
        t, w = gname(rng, cfg)
        k, v = t.split(':', 1)
        lines.append('%s.%d = %s' % (k, i, v))
        want.append(w)
    cfg[here] = '[%s]\n%s' % (sec, '\n'.join(lines))
    return '@' + sec, want


def flat(x):
    """general names of anything holding some"""
    return [general(g) for g in x]


KU = ['digitalSignature', 'nonRepudiation', 'keyEncipherment', 'dataEncipherment', 'keyAgreement', 'keyCertSign', 'cRLSign',
      'encipherOnly', 'decipherOnly']
EKU = [('serverAuth', '1.3.6.1.5.5.7.3.1'), ('clientAuth', '1.3.6.1.5.5.7.3.2'), ('codeSigning', '1.3.6.1.5.5.7.3.3'),
       ('emailProtection', '1.3.6.1.5.5.7.3.4'), ('timeStamping', '1.3.6.1.5.5.7.3.8'), ('OCSPSigning', '1.3.6.1.5.5.7.3.9')]
REASONS = ['unused', 'keyCompromise', 'CACompromise', 'affiliationChanged', 'superseded', 'cessationOfOperation',
           'certificateHold', 'privilegeWithdrawn', 'AACompromise']


def exts(rng, cfg, issued=True, only=None):
    """[(line, oid, critical, function of the extension's value, expected)]"""
    out = []

    def add(name, num, val, get, want, crit=None):
        c = rng.random() < 0.4 if crit is None else crit
        out.append(('%s = %s%s' % (name, 'critical,' if c else '', val), num, c, get, want))
    todo = ['bc', 'ku', 'eku', 'san', 'ian', 'cp', 'pc', 'pm', 'iap', 'nc', 'cdp', 'fcdp', 'aia', 'sia', 'ski', 'tls', 'ip', 'as',
            'proxy', 'nocheck', 'own']
    todo = only or rng.sample(todo, rng.randint(1, 9))
    for t in todo:
        if t == 'bc':
            ca, pl = rng.random() < 0.7, rng.choice([None, 0, 3, 200])
            if not ca:
                pl = None
            add('basicConstraints', '2.5.29.19', 'CA:%s%s' % (str(ca).upper(), '' if pl is None else ',pathlen:%d' % pl),
                lambda x: (bool(x['cA']), int(x['pathLenConstraint']) if has(x, 'pathLenConstraint') else None), (ca, pl))
        elif t == 'ku':
            s = set(rng.sample(range(9), rng.randint(1, 9)))
            add('keyUsage', '2.5.29.15', ','.join(KU[i] for i in sorted(s)),
                lambda x: (bits(x), len(x)), (s, max(s) + 1))
        elif t == 'eku':
            s = rng.sample(EKU, rng.randint(1, 5))
            mine = oid(rng)
            add('extendedKeyUsage', '2.5.29.37', ','.join([a for a, _ in s] + [mine]),
                lambda x: [str(i) for i in x], [b for _, b in s] + [mine])
        elif t == 'san':
            ref, want = gnames(rng, cfg)
            add('subjectAltName', '2.5.29.17', ref, flat, want)
        elif t == 'ian':
            ref, want = gnames(rng, cfg)
            add('issuerAltName', '2.5.29.18', ref, flat, want)
        elif t == 'cp':
            mine, cps, note, org = oid(rng), 'http://%s/' % word(rng, 10), word(rng, 50), word(rng, 20)
            nums = rng.sample(range(300), rng.randint(1, 4))
            sec = 'pol%d' % len(cfg)
            cfg.append('[%s]\npolicyIdentifier = %s\nCPS.1 = %s\nuserNotice.1 = @%sn\n[%sn]\nexplicitText = UTF8:%s\n'
                       'organization = %s\nnoticeNumbers = %s' % (sec, mine, cps, sec, sec, note, org, ','.join(map(str, nums))))

            def pol(x):
                q = x[1]['policyQualifiers']
                r = [str(x[0]['policyIdentifier']), str(x[1]['policyIdentifier']), x[0]['policyQualifiers'].isValue,
                     [str(i['policyQualifierId']) for i in q]]
                a, b = q[0]['qualifier'], q[1]['qualifier']
                if isinstance(a, U.Any):
                    a = der_decoder.decode(bytes(a))[0]
                    b = der_decoder.decode(bytes(b))[0]
                    return r + [str(a), str(b[0][0]), [int(i) for i in b[0][1]], str(b[1])]
                return r + [str(a), text(b['noticeRef']['organization']), [int(i) for i in b['noticeRef']['noticeNumbers']],
                            text(b['explicitText'])]
            add('certificatePolicies', '2.5.29.32', '2.5.29.32.0,@' + sec, pol,
                ['2.5.29.32.0', mine, False, ['1.3.6.1.5.5.7.2.1', '1.3.6.1.5.5.7.2.2'], cps, org, nums, note])
        elif t == 'pc':
            a, b = rng.choice([(3, None), (None, 0), (0, 1), (200, 128)])
            add('policyConstraints', '2.5.29.36', ','.join(n + ':%d' % v for n, v in (
                ('requireExplicitPolicy', a), ('inhibitPolicyMapping', b)) if v is not None),
                lambda x: tuple(int(x[k]) if has(x, k) else None for k in ('requireExplicitPolicy', 'inhibitPolicyMapping')), (a, b))
        elif t == 'pm':
            v = [(oid(rng), oid(rng)) for _ in range(rng.randint(1, 3))]
            add('policyMappings', '2.5.29.33', ','.join('%s:%s' % p for p in v),
                lambda x: [(str(i['issuerDomainPolicy']), str(i['subjectDomainPolicy'])) for i in x], v)
        elif t == 'iap':
            n = rng.choice([0, 1, 300])
            add('inhibitAnyPolicy', '2.5.29.54', n, int, n)
        elif t == 'nc':
            lines, want = [], [[], []]
            for i in range(rng.randint(1, 5)):
                w = rng.randrange(2)
                k = rng.randrange(3)
                if k == 0:
                    b = bytes(rng.randrange(256) for _ in range(4)) + b'\xff\xff\0\0'
                    tx, g = 'IP.%d = %s/%s' % (i, '.'.join(map(str, b[:4])), '.'.join(map(str, b[4:]))), ('iPAddress', b)
                elif k == 1:
                    s = word(rng, 9) + '.example'
                    tx, g = 'DNS.%d = %s' % (i, s), ('dNSName', s)
                else:
                    s = '.' + word(rng, 9)
                    tx, g = 'email.%d = %s' % (i, s), ('rfc822Name', s)
                lines.append(('permitted;', 'excluded;')[w] + tx)
                want[w].append(g + (0, None))
            sec = 'nc%d' % len(cfg)
            cfg.append('[%s]\n%s' % (sec, '\n'.join(lines)))

            def trees(x):
                return [[general(s['base']) + (int(s['minimum']), int(s['maximum']) if has(s, 'maximum') else None) for s in x[k]]
                        if has(x, k) else [] for k in ('permittedSubtrees', 'excludedSubtrees')]
            add('nameConstraints', '2.5.29.30', '@' + sec, trees, want)
        elif t in ('cdp', 'fcdp'):
            if t == 'fcdp':
                u = 'http://%s/' % word(rng, 20)
                add('freshestCRL', '2.5.29.46', 'URI:' + u, lambda x: [flat(p['distributionPoint']['fullName']) for p in x],
                    [[('uniformResourceIdentifier', u)]], False)
                continue
            secs, want = [], []
            for i in range(rng.randint(1, 3)):
                sec = 'dp%d' % len(cfg)
                cfg.append('')
                here = len(cfg) - 1
                lines = []
                w = {}
                if rng.random() < 0.6:
                    ref, g = gnames(rng, cfg, 2)
                    lines.append('fullname = ' + ref.replace('@', '@'))
                    w['full'] = g
                else:
                    d, g = dn(rng, 1, False)
                    cfg.append('[%sr]\n%s' % (sec, '\n'.join(d)))
                    lines.append('relativename = %sr' % sec)
                    w['rel'] = g[0]
                if rng.random() < 0.5:
                    r = set(rng.sample(range(1, 9), rng.randint(1, 4)))
                    lines.append('reasons = ' + ','.join(REASONS[k] for k in sorted(r)))
                    w['reasons'] = r
                if rng.random() < 0.5:
                    d, g = dn(rng, wide=False)
                    cfg.append('[%si]\n%s' % (sec, '\n'.join(d)))
                    lines.append('CRLissuer = dirName:%si' % sec)
                    w['issuer'] = [('directoryName', g)]
                cfg[here] = '[%s]\n%s' % (sec, '\n'.join(lines))
                secs.append(sec)
                want.append(w)

            def dps(x):
                out = []
                for p in x:
                    w = {}
                    if has(p, 'distributionPoint'):
                        k = p['distributionPoint'].getName()
                        c = p['distributionPoint'].getComponent()
                        if k == 'fullName':
                            w['full'] = flat(c)
                        else:
                            w['rel'] = sorted((str(a[0]), text(a[1])) for a in c)
                    if has(p, 'reasons'):
                        w['reasons'] = bits(p['reasons'])
                    if has(p, 'cRLIssuer'):
                        w['issuer'] = flat(p['cRLIssuer'])
                    out.append(w)
                return out
            add('crlDistributionPoints', '2.5.29.31', ','.join(secs), dps, want)
        elif t in ('aia', 'sia'):
            parts, want = [], []
            for i in range(rng.randint(1, 3)):
                n, num = rng.choice([('OCSP', '1.3.6.1.5.5.7.48.1'), ('caIssuers', '1.3.6.1.5.5.7.48.2'),
                                     ('caRepository', '1.3.6.1.5.5.7.48.5'), (None, oid(rng))])
                u = 'http://%s/' % word(rng, 20)
                parts.append('%s;URI:%s' % (n or num, u))
                want.append((num, ('uniformResourceIdentifier', u)))
            add({'aia': 'authorityInfoAccess', 'sia': 'subjectInfoAccess'}[t],
                {'aia': '1.3.6.1.5.5.7.1.1', 'sia': '1.3.6.1.5.5.7.1.11'}[t], ','.join(parts),
                lambda x: [(str(i['accessMethod']), general(i['accessLocation'])) for i in x], want, False)
        elif t == 'ski':
            b = bytes(rng.randrange(256) for _ in range(rng.randint(1, 24)))
            add('subjectKeyIdentifier', '2.5.29.14', b.hex(), bytes, b, False)
        elif t == 'tls':
            v = [rng.randrange(0, 65536) for _ in range(rng.randint(1, 4))]
            add('tlsfeature', '1.3.6.1.5.5.7.1.24', ','.join(map(str, v)), lambda x: [int(i) for i in x], v)
        elif t == 'ip':
            p = rng.randint(1, 24)
            v = rng.getrandbits(p)
            n = v << (32 - p)

            def fam(x):
                f = x[0]
                c = f['ipAddressChoice']
                if c.getName() == 'inherit':
                    return bytes(f['addressFamily']), 'inherit'
                a = c.getComponent()[0].getComponent()
                return bytes(f['addressFamily']), tuple(a)
            if rng.random() < 0.3:
                add('sbgp-ipAddrBlock', '1.3.6.1.5.5.7.1.7', 'IPv6:inherit', fam, (b'\0\2', 'inherit'), True)
            else:
                add('sbgp-ipAddrBlock', '1.3.6.1.5.5.7.1.7', 'IPv4:%d.%d.%d.%d/%d' % (
                    n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255, p), fam,
                    (b'\0\1', tuple(int(x) for x in bin(v)[2:].zfill(p))), True)
        elif t == 'as':
            a = rng.randrange(1, 2 ** 32 - 10)

            def nums(x):
                out = []
                for k in ('asnum', 'rdi'):
                    if not has(x, k):
                        out.append(None)
                    elif x[k].getName() == 'inherit':
                        out.append('inherit')
                    else:
                        out.append([(int(i.getComponent()),) if i.getName() == 'id' else (
                            int(i.getComponent()['min']), int(i.getComponent()['max'])) for i in x[k].getComponent()])
                return out
            v, w = rng.choice([('AS:%d' % a, [[(a,)], None]), ('AS:%d-%d' % (a, a + 5), [[(a, a + 5)], None]),
                               ('RDI:inherit', [None, 'inherit']), ('AS:inherit,RDI:%d' % a, ['inherit', [(a,)]]),
                               ('AS:3,AS:10-20,RDI:7-9', [[(3,), (10, 20)], [(7, 9)]])])
            add('sbgp-autonomousSysNum', '1.3.6.1.5.5.7.1.8', v, nums, w, True)
        elif t == 'proxy':
            n, s = rng.choice([None, 0, 5]), word(rng, 20)
            add('proxyCertInfo', '1.3.6.1.5.5.7.1.14', 'language:1.3.6.1.5.5.7.21.7%s,policy:text:%s' % (
                '' if n is None else ',pathlen:%d' % n, s),
                lambda x: (int(x['pCPathLenConstraint']) if has(x, 'pCPathLenConstraint') else None,
                           str(x['proxyPolicy']['policyLanguage']), bytes(x['proxyPolicy']['policy'])),
                (n, '1.3.6.1.5.5.7.21.7', s.encode()), True)
        elif t == 'nocheck':
            add('noCheck', '1.3.6.1.5.5.7.48.1.5', 'ignored', lambda x: isinstance(x, U.Null), True, False)
        elif t == 'own':
            s = word(rng, 30)
            add(oid(rng), None, 'ASN1:UTF8String:' + s, lambda x: bytes(x), bytes([12, len(s)]) + s.encode())
            out[-1] = out[-1][:1] + (out[-1][0].split(' =')[0],) + out[-1][2:]
    return out


def ext_facts(es, path, label):
    def get(o, num, f):
        x = at(o, path)
        found = [e for e in x if str(e['extnID']) == num]
        assert len(found) == 1, '%d extensions %s' % (len(found), num)
        v = found[0]['extnValue']
        if num in MAP and type(v) is U.OctetString:
            # this edition leaves them as octets
            b = bytes(v)
            v, rest = der_decoder.decode(b, asn1Spec=MAP[num])
            assert not rest and der_encoder.encode(v) == b, 'written back as %s' % der_encoder.encode(v).hex()
        return bool(found[0]['critical']), f(v)
    return [('%s %s' % (label, line.split(' =')[0] if num[:4] != '1.3.6.1.4'[:4] or ' = ASN1' not in line else 'own'),
             (lambda o, num=num, f=f: get(o, num, f)), (crit, want))
            for line, num, crit, f, want in es]


MAP = {}


def conf(d, name, cfg, main):
    # openssl reads sections of one file
    write(d, name, main + '\n' + '\n'.join(cfg) + '\n')
    return name


def time_fact(path, stamp):
    """YYYYMMDDHHMMSSZ as the profile has it: two-digit years until 2049"""
    if int(stamp[:4]) < 2050:
        return path + '.utcTime', stamp[2:]
    return path + '.generalTime', stamp


def stamp(rng, lo=1950, hi=2200):
    return '%04d%02d%02d%02d%02d%02dZ' % (rng.choice([rng.randint(lo, hi), rng.randint(2000, 2049), 2049, 2050]), rng.randint(1, 12),
                                          rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))


# openssl adds them by itself
AUTO = ('2.5.29.14', '2.5.29.35')
SIGN = [('ec', ['-md', 'sha256'], '1.2.840.10045.4.3.2'), ('ec', ['-md', 'sha384'], '1.2.840.10045.4.3.3'),
        ('rsa', ['-md', 'sha256'], '1.2.840.113549.1.1.11'), ('rsa', ['-md', 'sha1'], '1.2.840.113549.1.1.5'),
        ('rsa', ['-md', 'sha512'], '1.2.840.113549.1.1.13'), ('dsa', ['-md', 'sha256'], '2.16.840.1.101.3.4.3.2'),
        ('ed', [], '1.3.101.112'),
        ('rsa', ['-md', 'sha256', '-sigopt', 'rsa_padding_mode:pss'], '1.2.840.113549.1.1.10'),
        ('rsa', ['-md', 'sha384', '-sigopt', 'rsa_padding_mode:pss', '-sigopt', 'rsa_pss_saltlen:20'], '1.2.840.113549.1.1.10')]
KEYOID = {'ec': '1.2.840.10045.2.1', 'rsa': '1.2.840.113549.1.1.1', 'dsa': '1.2.840.10040.4.1', 'ed': '1.3.101.112',
          'x': '1.3.101.110', 'dh': '1.2.840.10046.2.1'}
CERT = ['rfc2459.Certificate', 'rfc3280.Certificate', 'rfc5280.Certificate']
CRL = ['rfc2459.CertificateList', 'rfc3280.CertificateList', 'rfc5280.CertificateList']


def ca_setup(rng, d, keys, key, cfg):
    """a CA with a random name; returns its expected name"""
    mask = rng.choice(['utf8only', 'default', 'pkix', 'nombstr'])
    lines, name = dn(rng, wide=mask == 'utf8only')
    write(d, 'ca.cnf', '[req]\ndistinguished_name=n\nprompt=no\nutf8=yes\nstring_mask=%s\n[n]\n%s\n' % (
        mask, '\n'.join(lines)))
    ossl(d, 'req', '-new', '-x509', '-utf8', '-config', 'ca.cnf', '-key', '%s/%s.pem' % (keys, key), '-out', 'ca.crt', '-days', 100,
         '-set_serial', rng.choice([1, 200, 2 ** 64]))
    return name


def make_cert(rng, d, keys, only=None):
    cfg = []
    key, opts, alg = rng.choice(SIGN)
    issuer = ca_setup(rng, d, keys, key, cfg)
    skey = rng.choice(['ec', 'rsa', 'ed', 'dsa'])
    mask = rng.choice(['utf8only', 'default', 'pkix', 'nombstr'])
    lines, subject = dn(rng, wide=mask == 'utf8only')
    write(d, 'req.cnf', '[req]\ndistinguished_name=n\nprompt=no\nutf8=yes\nstring_mask=%s\n[n]\n%s\n' % (mask, '\n'.join(lines)))
    ossl(d, 'req', '-new', '-utf8', '-config', 'req.cnf', '-key', '%s/%s.pem' % (keys, skey), '-out', 'r.csr')
    es = exts(rng, cfg, only=only) if rng.random() < 0.93 or only else []
    serial = rng.choice(['01', '7F', '0080', 'FF', '%040X' % rng.getrandbits(158)])
    serial = serial if len(serial) % 2 == 0 else '0' + serial
    a, b = stamp(rng), stamp(rng)
    write(d, 'serial', serial + '\n')
    write(d, 'index.txt', '')
    os.makedirs(os.path.join(d, 'new'), exist_ok=True)
    main = ('openssl_conf=none\noid_section=o\nutf8=yes\n[none]\n[o]\n[ca]\ndefault_ca=c\n[c]\ndatabase=index.txt\nserial=serial\n'
            'new_certs_dir=new\npreserve=yes\nunique_subject=no\npolicy=p\ndefault_md=sha256\nemail_in_dn=yes\ncopy_extensions=none\n[p]\n[x]\n%s\n' % (
                '\n'.join(e[0] for e in es)))
    conf(d, 'x.cnf', cfg, main)
    ossl(d, 'ca', '-batch', '-notext', '-config', 'x.cnf', '-in', 'r.csr', '-cert', 'ca.crt', '-keyfile', '%s/%s.pem' % (keys, key),
         '-out', 'c.crt', '-startdate', a, '-enddate', b, '-preserveDN', '-utf8', *((['-extensions', 'x'] if es else []) + opts))
    der = ossl(d, 'x509', '-in', 'c.crt', '-outform', 'DER')
    p = 'tbsCertificate.'
    have = [e[1] for e in es]
    facts = [('version', p + 'version', 2 if es else (2 if not es and False else None)),
             ('serial', p + 'serialNumber', int(serial, 16)),
             ('signature algorithm', 'signatureAlgorithm.algorithm', alg), ('inner algorithm', p + 'signature.algorithm', alg),
             ('issuer', lambda o: names(at(o, p + 'issuer')), issuer), ('subject', lambda o: names(at(o, p + 'subject')), subject),
             ('notBefore',) + time_fact(p + 'validity.notBefore', a), ('notAfter',) + time_fact(p + 'validity.notAfter', b),
             ('key algorithm', p + 'subjectPublicKeyInfo.algorithm.algorithm', KEYOID[skey]),
             ('extensions', lambda o: [str(e['extnID']) for e in at(o, p + 'extensions') if str(e['extnID']) in have or str(e['extnID']) not in AUTO]
              if has(o, p + 'extensions') else [], have)]
    if es:
        facts[0] = ('version', p + 'version', 2)
    else:
        facts.pop(0)
    facts += ext_facts(es, p + 'extensions', 'extension')
    return der, facts, (issuer, subject, [e[0] for e in es], cfg), (key, skey, serial)


def cert(rec, rng, d, keys):
    der, facts, det, _ = make_cert(rng, d, keys)
    judge(rec, 'certificate', der, CERT, facts, det)
    if rng.random() < 0.3:
        judge(rec, 'certificate in a choice', der, ['rfc2315.ExtendedCertificateOrCertificate'],
              [('choice', lambda o: o.getName(), 'certificate')], det)


def crl(rec, rng, d, keys):
    cfg = []
    key, opts, alg = rng.choice(SIGN)
    issuer = ca_setup(rng, d, keys, key, cfg)
    es, want = [], []
    n = rng.randint(0, 6)
    lines = []
    rv = ['unspecified', 'keyCompromise', 'CACompromise', 'affiliationChanged', 'superseded', 'cessationOfOperation', 'certificateHold',
          None, 'removeFromCRL']
    hasext = False
    for i in range(n):
        s = rng.choice([rng.randrange(1, 128), rng.getrandbits(100) + 1])
        s = '%X' % s
        s = s if len(s) % 2 == 0 else '0' + s
        when = stamp(rng, 1950, 2049)
        when = when if int(when[:4]) < 2050 else '2049' + when[4:]
        r = rng.choice([None, None, 'keyCompromise', 'superseded', 'removeFromCRL', 'holdInstruction', 'keyTime', 'CAkeyTime'])
        extra, t = [], ''
        if r in ('keyCompromise', 'superseded', 'removeFromCRL'):
            t = ',' + r
            extra = [('2.5.29.21', rv.index(r))]
        elif r == 'holdInstruction':
            t = ',holdInstruction,holdInstructionReject'
            extra = [('2.5.29.21', 6), ('2.5.29.23', '1.2.840.10040.2.3')]
        elif r in ('keyTime', 'CAkeyTime'):
            g = stamp(rng)
            t = ',%s,%s' % (r, g)
            extra = [('2.5.29.21', 1 if r == 'keyTime' else 2), ('2.5.29.24', g)]
        lines.append('R\t301231235959Z\t%s%s\t%s\tunknown\t/CN=x%d' % (when[2:] if 1950 <= int(when[:4]) < 2050 else when, t, s, i))
        want.append((int(s, 16), when[2:] if int(when[:4]) < 2050 else when, dict(extra)))
        hasext = hasext or extra
    if rng.random() < 0.8:
        num = rng.choice([0, 5, 2 ** 100])
        es.append(('authorityKeyIdentifier = issuer:always', '2.5.29.35', False, lambda x: names(x['authorityCertIssuer'][0].getComponent()), issuer))
        if rng.random() < 0.5:
            u = 'http://%s/' % word(rng, 9)
            sec = 'idp'
            f = rng.choice(['onlyuser', 'onlyCA', 'onlyAA', 'indirectCRL'])
            rs = set(rng.sample(range(1, 9), 3))
            some = rng.random() < 0.5
            cfg.append('[idp]\nfullname = URI:%s\n%s = TRUE\n%s' % (u, f, 'onlysomereasons = ' + ','.join(REASONS[i] for i in sorted(rs)) if some else ''))
            k = {'onlyuser': 'onlyContainsUserCerts', 'onlyCA': 'onlyContainsCACerts', 'onlyAA': 'onlyContainsAttributeCerts', 'indirectCRL': 'indirectCRL'}

            def idp(x):
                flags = sorted(n for n in k.values() if n in x.componentType and bool(x[n]))
                return flat(x['distributionPoint']['fullName']), flags, bits(x['onlySomeReasons']) if has(x, 'onlySomeReasons') else None
            es.append(('issuingDistributionPoint = critical,@idp', '2.5.29.28', True, idp,
                       ([('uniformResourceIdentifier', u)], [k[f]], rs if some else None)))
    # earliest first, as in the index
    a, b = stamp(rng), stamp(rng)
    write(d, 'index.txt', ''.join(x + '\n' for x in lines))
    write(d, 'crlnumber', '0F\n')
    usenum = es and rng.random() < 0.5
    main = ('[ca]\ndefault_ca=c\n[c]\ndatabase=index.txt\nunique_subject=no\ndefault_md=sha256\n%s[x]\n%s\n' % (
        'crlnumber=crlnumber\n' if usenum else '', '\n'.join(e[0] for e in es)))
    if usenum:
        es.append(('crlNumber = 15', '2.5.29.20', False, int, 15))
    conf(d, 'x.cnf', cfg, main)
    ossl(d, 'ca', '-gencrl', '-config', 'x.cnf', '-cert', 'ca.crt', '-keyfile', '%s/%s.pem' % (keys, key), '-out', 'c.crl',
         '-crl_lastupdate', a, '-crl_nextupdate', b, *((['-crlexts', 'x'] if es else []) + opts))
    der = ossl(d, 'crl', '-in', 'c.crl', '-outform', 'DER')
    p = 'tbsCertList.'

    def revoked(o):
        out = []
        rc = at(o, p + 'revokedCertificates')
        for c in rc if rc.isValue else []:
            e = c['crlEntryExtensions']
            x = {}
            for i in e if e.isValue else []:
                v = i['extnValue']
                if type(v).__name__ in ('OctetString', 'Any', 'CertificateSerialNumber'):
                    v = der_decoder.decode(bytes(v))[0]
                x[str(i['extnID'])] = int(v) if isinstance(v, U.Integer) else str(v)
            out.append((int(c['userCertificate']), text(c['revocationDate']), x))
        return sorted(out, key=repr)
    facts = [('signature algorithm', 'signatureAlgorithm.algorithm', alg), ('issuer', lambda o: names(at(o, p + 'issuer')), issuer),
             ('thisUpdate',) + time_fact(p + 'thisUpdate', a), ('nextUpdate',) + time_fact(p + 'nextUpdate', b),
             ('revoked', revoked, sorted(want, key=repr), lambda t, opn: opn and t != 'rfc3280.CertificateList' and not (hasext and t.startswith('rfc2459')))]
    if es:
        facts.append(('version', p + 'version', 1))
    facts += ext_facts(es, p + 'crlExtensions', 'list extension')
    # onlyContainsAttributeCerts came with RFC 3280
    judge(rec, 'crl', der, CRL[any('onlyAA' in c for c in cfg):], facts, (issuer, lines, cfg))


def csr(rec, rng, d, keys):
    cfg = []
    skey = rng.choice(['ec', 'rsa', 'ed', 'dsa'])
    lines, subject = dn(rng)
    es = exts(rng, cfg, only=rng.sample(['bc', 'ku', 'eku', 'san', 'own', 'cp', 'nc', 'tls'], rng.randint(0, 4)) or ['bc'])
    pw, un = word(rng, 20), word(rng, 20)
    want = []
    attrs = ''
    if rng.random() < 0.6:
        attrs += 'challengePassword = %s\n' % pw
        want.append(('1.2.840.113549.1.9.7', pw))
    if rng.random() < 0.6:
        attrs += 'unstructuredName = %s\n' % un
        want.append(('1.2.840.113549.1.9.2', un))
    useext = rng.random() < 0.8
    conf(d, 'r.cnf', cfg, '[req]\ndistinguished_name=n\nprompt=no\nutf8=yes\n%s%s[n]\n%s\n[a]\n%s[x]\n%s' % (
        'attributes=a\n' if attrs else '', 'req_extensions=x\n' if useext else '', '\n'.join(lines), attrs, '\n'.join(e[0] for e in es)))
    ossl(d, 'req', '-new', '-utf8', '-config', 'r.cnf', '-key', '%s/%s.pem' % (keys, skey), '-out', 'r.csr')
    der = ossl(d, 'req', '-in', 'r.csr', '-outform', 'DER')
    p = 'certificationRequestInfo.'

    def attributes(o):
        out = []
        for a in at(o, p + 'attributes'):
            if str(a[0]) != '1.2.840.113549.1.9.14':
                assert len(a[1]) == 1
                out.append((str(a[0]), text(a[1][0])))
        return sorted(out)
    facts = [('version', p + 'version', 0), ('subject', lambda o: names(at(o, p + 'subject')), subject),
             ('attributes', attributes, sorted(want)),
             ('key', lambda o: str(at(o, p).getComponentByPosition(2)[0][0]) if False else str(at(o, 'certificationRequestInfo')[2][0][0]), KEYOID[skey])]
    judge(rec, 'request', der, ['rfc2314.CertificationRequest', 'rfc2986.CertificationRequest'], facts, (lines, attrs, cfg))
    if useext:
        # the extensions asked for, opened through the attribute
        o = der_decoder.decode(der, asn1Spec=module('rfc2986').CertificationRequest())[0]
        for a in at(o, p + 'attributes'):
            if str(a[0]) == '1.2.840.113549.1.9.14':
                v = bytes(a[1][0])
                judge(rec, 'requested extensions', v, ['rfc2459.Extensions', 'rfc3280.Extensions', 'rfc5280.Extensions'],
                      ext_facts(es, '', 'requested'), cfg)


def keysjob(rec, rng, d, keys):
    c = rng.randrange(7)
    k = rng.choice(['ec', 'rsa', 'ed', 'dsa', 'x', 'ec384', 'rsapss'])
    kd = '%s/%s.pem' % (keys, k)
    kid = {'ec384': KEYOID['ec'], 'rsapss': '1.2.840.113549.1.1.10'}.get(k) or KEYOID[k]
    both8 = ['rfc5208.PrivateKeyInfo', 'rfc5958.PrivateKeyInfo', 'rfc5958.OneAsymmetricKey']
    enc8 = ['rfc5208.EncryptedPrivateKeyInfo', 'rfc5958.EncryptedPrivateKeyInfo']
    if c == 0:
        der = ossl(d, 'pkcs8', '-topk8', '-nocrypt', '-in', kd, '-outform', 'DER')
        judge(rec, 'private key', der, both8, [
            ('version', 'version', 0), ('algorithm', 'privateKeyAlgorithm.algorithm', kid)], k)
    elif c == 1:
        der = ossl(d, 'pkey', '-pubout', '-in', kd, '-outform', 'DER')
        judge(rec, 'public key', der, ['rfc5280.SubjectPublicKeyInfo', 'rfc2459.SubjectPublicKeyInfo', 'rfc3280.SubjectPublicKeyInfo'], [
            ('algorithm', 'algorithm.algorithm', kid)], k)
    elif c == 2:
        ci, cid = rng.choice([('aes-128-cbc', '2.16.840.1.101.3.4.1.2'), ('aes-256-cbc', '2.16.840.1.101.3.4.1.42'),
                              ('des-ede3-cbc', '1.2.840.113549.3.7')])
        prf, pid = rng.choice([('hmacWithSHA1', '1.2.840.113549.2.7'), ('hmacWithSHA256', '1.2.840.113549.2.9'),
                               ('hmacWithSHA512', '1.2.840.113549.2.11')])
        it = rng.choice([1, 100, 2048])
        der = ossl(d, 'pkcs8', '-topk8', '-in', kd, '-outform', 'DER', '-v2', ci, '-v2prf', prf, '-iter', it, '-passout', 'pass:x')
        judge(rec, 'encrypted key', der, enc8, [('algorithm', 'encryptionAlgorithm.algorithm', '1.2.840.113549.1.5.13')], k)
        o = der_decoder.decode(der, asn1Spec=module('rfc5208').EncryptedPrivateKeyInfo())[0]
        pb = bytes(o[0][1])
        judge(rec, 'PBES2 parameters', pb, ['rfc8018.PBES2_params'], [
            ('scheme', 'encryptionScheme.algorithm', cid), ('kdf', 'keyDerivationFunc.algorithm', '1.2.840.113549.1.5.12'),
            ('iterations', lambda o: int(at(o, 'keyDerivationFunc.parameters.iterationCount')), it, lambda t, opn: opn),
            ('prf', lambda o: str(at(o, 'keyDerivationFunc.parameters.prf.algorithm')), pid, lambda t, opn: opn)], (ci, prf, it))
    elif c == 3:
        n, r, p = rng.choice([(16, 8, 1), (1024, 4, 2), (16384, 1, 1)])
        der = ossl(d, 'pkcs8', '-topk8', '-in', kd, '-outform', 'DER', '-scrypt', '-scrypt_N', n, '-scrypt_r', r, '-scrypt_p', p, '-passout', 'pass:x')
        judge(rec, 'encrypted key', der, enc8, [('algorithm', 'encryptionAlgorithm.algorithm', '1.2.840.113549.1.5.13')], k)
        o = der_decoder.decode(der, asn1Spec=module('rfc5208').EncryptedPrivateKeyInfo())[0]
        judge(rec, 'PBES2 parameters', bytes(o[0][1]), ['rfc8018.PBES2_params'], [
            ('kdf', 'keyDerivationFunc.algorithm', '1.3.6.1.4.1.11591.4.11'),
            ('cost', lambda o: [int(at(o, 'keyDerivationFunc.parameters.' + x)) for x in ('costParameter', 'blockSize', 'parallelizationParameter')],
             [n, r, p], lambda t, opn: opn)], (n, r, p))
    elif c == 4:
        der = ossl(d, 'rsa', '-in', '%s/rsa.pem' % keys, '-traditional', '-outform', 'DER')
        mod = int(ossl(d, 'rsa', '-in', '%s/rsa.pem' % keys, '-noout', '-modulus').split(b'=')[1], 16)
        judge(rec, 'RSA key', der, ['rfc2437.RSAPrivateKey', 'rfc3447.RSAPrivateKey', 'rfc8017.RSAPrivateKey'],
              [('modulus', 'modulus', mod), ('exponent', 'publicExponent', 65537),
               ('factors', lambda o: int(o['prime1']) * int(o['prime2']), mod),
               ('inverse', lambda o: int(o['coefficient']) * int(o['prime2']) % int(o['prime1']), 1)])
        der = ossl(d, 'rsa', '-in', '%s/rsa.pem' % keys, '-RSAPublicKey_out', '-outform', 'DER')
        judge(rec, 'RSA public key', der, ['rfc2437.RSAPublicKey', 'rfc3447.RSAPublicKey', 'rfc8017.RSAPublicKey', 'rfc3279.RSAPublicKey'],
              [('modulus', 'modulus', mod), ('exponent', 'publicExponent', 65537)])
    elif c == 5:
        cv, cid = rng.choice([('prime256v1', '1.2.840.10045.3.1.7'), ('secp384r1', '1.3.132.0.34'), ('secp521r1', '1.3.132.0.35'),
                              ('brainpoolP256r1', '1.3.36.3.3.2.8.1.1.7')])
        der = ossl(d, 'ecparam', '-name', cv, '-genkey', '-noout', '-outform', 'DER')
        judge(rec, 'EC key', der, ['rfc5915.ECPrivateKey'], [('version', 'version', 1), ('curve', 'parameters.namedCurve', cid)], cv)
        der = ossl(d, 'ecparam', '-name', cv, '-outform', 'DER')
        judge(rec, 'EC parameters', der, ['rfc3279.EcpkParameters', 'rfc5480.ECParameters'], [('curve', 'namedCurve', cid)], cv)
        cv = rng.choice(['prime256v1', 'secp384r1', 'sect233k1', 'sect283r1', 'c2pnb163v1'])
        der = ossl(d, 'ecparam', '-name', cv, '-param_enc', 'explicit', '-outform', 'DER')
        want = '1.2.840.10045.1.1' if cv[0] in 'ps' and not cv.startswith('sect') else '1.2.840.10045.1.2'
        judge(rec, 'EC parameters explicit', der, ['rfc3279.EcpkParameters'], [
            ('version', 'ecParameters.version', 1), ('field', 'ecParameters.fieldID.fieldType', want)], cv)
    else:
        der = ossl(d, 'dsaparam', '-in', '%s/dsa.pem' % keys, '-outform', 'DER', any=True)
        if not der:
            der = ossl(d, 'pkeyparam', '-in', '%s/dsa.pem' % keys, '-outform', 'DER', any=True)
        if der[:1] == b'\x30':
            judge(rec, 'DSA parameters', der, ['rfc3279.Dss_Parms'], [('divides', lambda o: (int(o['p']) - 1) % int(o['q']), 0)])
        der = ossl(d, 'genpkey', '-genparam', '-algorithm', 'DHX', '-pkeyopt', 'dh_rfc5114:%d' % rng.choice([1, 2, 3]))
        der = base64.b64decode(b''.join(der.split(b'-----')[2].split()))
        judge(rec, 'DH parameters', der, ['rfc3279.DomainParameters'], [
            ('divides', lambda o: (int(o['p']) - 1) % int(o['q']), 0), ('order', lambda o: pow(int(o['g']), int(o['q']), int(o['p'])), 1)])


DIG = [('sha1', '1.3.14.3.2.26'), ('sha256', '2.16.840.1.101.3.4.2.1'), ('sha384', '2.16.840.1.101.3.4.2.2'), ('sha512', '2.16.840.1.101.3.4.2.3')]
CMS = ['rfc5652.ContentInfo', 'rfc3852.ContentInfo']


def signers(rng, d, keys):
    """certificates for the keys, with random names and serials"""
    out = {}
    for k in ('ec', 'rsa', 'dsa', 'ed'):
        lines, name = dn(rng)
        write(d, 'n.cnf', '[req]\ndistinguished_name=n\nprompt=no\nutf8=yes\nx509_extensions=x\n[n]\n%s\n[x]\nsubjectKeyIdentifier=hash\n' % '\n'.join(lines))
        serial = rng.choice([1, 255, rng.getrandbits(120) + 1])
        ossl(d, 'req', '-new', '-x509', '-utf8', '-config', 'n.cnf', '-key', '%s/%s.pem' % (keys, k), '-out', k + '.crt', '-set_serial', serial, '-days', 10)
        out[k] = (name, serial)
    return out


def inner(o):
    """the content of a ContentInfo, resolved or not"""
    return o['content']


def content(rec, der, types, label, facts, what, det):
    """judges the ContentInfo and the content on its own"""
    judge(rec, label, der, CMS, [('content type', 'contentType', what)], det)
    o = der_decoder.decode(der, asn1Spec=module('rfc5652').ContentInfo())[0]
    judge(rec, label + ' content', bytes(o['content']), types, facts, det)


def attrs_of(rec, der, det, want):
    """signed attributes of the first signer"""
    o = der_decoder.decode(der, asn1Spec=module('rfc5652').SignedData(), decodeOpenTypes=True)[0]
    got = {}
    for a in o['signerInfos'][0]['signedAttrs']:
        got[str(a['attrType'])] = list(a['attrValues'])
    for num, cls, get, w in want:
        if num not in got:
            rec.bad('attr:%s' % num, 'signed attribute %s is not found' % num, der=der.hex())
            continue
        v = got[num][0]
        rec.count('facts')
        if type(v).__name__ != cls:
            rec.bad('attr:%s' % num, 'signed attribute %s is read as %s, not %s' % (num, type(v).__name__, cls), der=der.hex())
            continue
        try:
            g = get(v)
        except Exception as e:
            g = short(e)
        if g != w:
            rec.bad('attr:%s' % num, 'signed attribute %s holds %s, not %s' % (num, short(g), short(w)), der=der.hex())


def cms(rec, rng, d, keys):
    who = signers(rng, d, keys)
    data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 50, 300])))
    write(d, 'data', data)
    c = rng.randrange(9)
    if c <= 2:
        ks = rng.sample(['ec', 'rsa', 'dsa'], rng.randint(1, 2))
        md, mid = rng.choice(DIG[:2] if 'dsa' in ks else DIG)
        args = ['cms', '-sign', '-binary', '-in', 'data', '-outform', 'DER', '-md', md]
        keyid = rng.random() < 0.4
        detached, noattr = rng.random() < 0.4, rng.random() < 0.3
        ect, eid = rng.choice([(None, '1.2.840.113549.1.7.1')] * 3 + [('1.2.3.4.5', '1.2.3.4.5')])
        for k in ks:
            args += ['-signer', k + '.crt', '-inkey', '%s/%s.pem' % (keys, k)]
        args += ['-keyid'] * keyid + ['-nodetach'] * (not detached) + ['-noattr'] * noattr + (['-econtent_type', ect] if ect else [])
        receipt = not noattr and rng.random() < 0.3
        if receipt:
            args += ['-receipt_request_all', '-receipt_request_to', 'someone@x.example']
        cades = not noattr and rng.random() < 0.4
        args += ['-cades'] * cades
        if rng.random() < 0.3:
            args += ['-nocerts']
        der = ossl(d, *args)

        def sids(o):
            out = []
            for s in o['signerInfos']:
                if s['sid'].getName() == 'issuerAndSerialNumber':
                    x = s['sid'].getComponent()
                    out.append((names(x[0]), int(x[1])))
                else:
                    out.append('key id')
            return sorted(out, key=repr)
        facts = [('version', 'version', 3 if keyid or ect else 1),
                 ('digests', lambda o: sorted({str(a[0]) for a in o['digestAlgorithms']}), [mid]),
                 ('content type', 'encapContentInfo.eContentType', eid),
                 ('content', lambda o: bytes(o['encapContentInfo']['eContent']) if o['encapContentInfo']['eContent'].isValue else None,
                  None if detached else data),
                 ('signers', sids, sorted(['key id' if keyid else who[k] for k in ks], key=repr)),
                 ('attributes present', lambda o: [has(s, 'signedAttrs') for s in o['signerInfos']], [not noattr] * len(ks)),
                 ('crls', lambda o: has(o, 'crls'), False),
                 ('unsigned attributes', lambda o: [has(s, 'unsignedAttrs') for s in o['signerInfos']], [False] * len(ks))]
        content(rec, der, ['rfc5652.SignedData', 'rfc3852.SignedData'], 'cms signed', facts, '1.2.840.113549.1.7.2', args)
        if not noattr and not ect:
            o = der_decoder.decode(der, asn1Spec=module('rfc5652').ContentInfo())[0]
            import hashlib
            w = [('1.2.840.113549.1.9.3', 'ContentType', str, '1.2.840.113549.1.7.1'),
                 ('1.2.840.113549.1.9.4', 'MessageDigest', bytes, hashlib.new(md, data).digest())]
            if cades:
                certs = [hashlib.new('sha256', ossl(d, 'x509', '-in', k + '.crt', '-outform', 'DER')).digest() for k in ks]
                if md == 'sha1':
                    pass
                else:
                    w.append(('1.2.840.113549.1.9.16.2.47', 'SigningCertificateV2', lambda v: bytes(v['certs'][0]['certHash']) in [
                        hashlib.new(h, ossl(d, 'x509', '-in', k + '.crt', '-outform', 'DER')).digest() for k in ks for h in ('sha1', 'sha256', 'sha384', 'sha512')], True))
            if receipt:
                w.append(('1.2.840.113549.1.9.16.2.1', 'ReceiptRequest', lambda v: (
                    int(v['receiptsFrom']['allOrFirstTier']), [flat(x) for x in v['receiptsTo']]), (0, [[('rfc822Name', 'someone@x.example')]])))
            attrs_of(rec, bytes(o['content']), args, w)
    elif c == 3:
        ci, cid, aead = rng.choice([('aes-128-cbc', '2.16.840.1.101.3.4.1.2', 0), ('aes256', '2.16.840.1.101.3.4.1.42', 0),
                                    ('des3', '1.2.840.113549.3.7', 0), ('aes-256-gcm', '2.16.840.1.101.3.4.1.46', 1)])
        args = ['cms', '-encrypt', '-binary', '-in', 'data', '-outform', 'DER', '-' + ci]
        want = []
        kinds = rng.sample(['rsa', 'ec', 'pw', 'kek', 'oaep'], rng.randint(1, 3))
        if aead and 'pw' in kinds:
            kinds = [k for k in kinds if k != 'pw'] or ['rsa']
        if 'oaep' in kinds:
            kinds = [k for k in kinds if k != 'rsa']
        keyid = rng.random() < 0.4
        args += ['-keyid'] * keyid
        for k in kinds:
            if k == 'pw':
                args += ['-pwri_password', 'secret']
                want.append('pwri')
            elif k == 'kek':
                args += ['-secretkey', '00' * 16, '-secretkeyid', 'C0FFEE']
                want.append('kekri')
        for k in kinds:
            if k == 'rsa':
                args += ['-recip', 'rsa.crt']
                want.append('ktri')
            elif k == 'oaep':
                args += ['-recip', 'rsa.crt', '-keyopt', 'rsa_padding_mode:oaep', '-keyopt', 'rsa_oaep_md:sha256']
                want.append('ktri')
            elif k == 'ec':
                args += ['-recip', 'ec.crt']
                want.append('kari')
        der = ossl(d, *args)
        ei = 'authEncryptedContentInfo' if aead else 'encryptedContentInfo'

        def kek(o):
            for r in o['recipientInfos']:
                if r.getName() == 'kekri':
                    return bytes(r.getComponent()['kekid']['keyIdentifier'])
        facts = [('cipher', ei + '.contentEncryptionAlgorithm.algorithm', cid), ('kinds', lambda o: sorted(r.getName() for r in o['recipientInfos']), sorted(want)),
                 ('content type', ei + '.contentType', '1.2.840.113549.1.7.1'),
                 ('key id', kek, bytes.fromhex('C0FFEE') if 'kek' in kinds else None)]
        content(rec, der, ['rfc5083.AuthEnvelopedData'] if aead else ['rfc5652.EnvelopedData', 'rfc3852.EnvelopedData'],
                'cms enveloped', facts, '1.2.840.113549.1.9.16.1.23' if aead else '1.2.840.113549.1.7.3', args)
    elif c == 4:
        md, mid = rng.choice(DIG)
        import hashlib
        der = ossl(d, 'cms', '-digest_create', '-binary', '-nodetach', '-in', 'data', '-outform', 'DER', '-md', md)
        content(rec, der, ['rfc5652.DigestedData', 'rfc3852.DigestedData'], 'cms digested', [
            ('version', 'version', 0), ('algorithm', 'digestAlgorithm.algorithm', mid), ('content', 'encapContentInfo.eContent', data),
            ('digest', 'digest', hashlib.new(md, data).digest())], '1.2.840.113549.1.7.5', md)
    elif c == 5:
        der = ossl(d, 'cms', '-EncryptedData_encrypt', '-binary', '-in', 'data', '-outform', 'DER', '-aes-128-cbc', '-secretkey', '11' * 16)
        content(rec, der, ['rfc5652.EncryptedData', 'rfc3852.EncryptedData'], 'cms encrypted', [
            ('version', 'version', 0), ('cipher', 'encryptedContentInfo.contentEncryptionAlgorithm.algorithm', '2.16.840.1.101.3.4.1.2')],
            '1.2.840.113549.1.7.6', None)
    elif c == 6:
        ossl(d, 'crl2pkcs7', '-nocrl', '-certfile', 'ec.crt', '-certfile', 'rsa.crt', '-outform', 'DER', '-out', 'p7')
        der = read(d, 'p7')
        # the members are not in DER order
        judge(rec, 'pkcs7 certificates', der, ['rfc2315.ContentInfo'] + CMS, [('content type', 'contentType', '1.2.840.113549.1.7.2')], again_too=False)
        o = der_decoder.decode(der, asn1Spec=module('rfc2315').ContentInfo())[0]
        judge(rec, 'pkcs7 certificates content', bytes(o['content']), ['rfc2315.SignedData', 'rfc5652.SignedData', 'rfc3852.SignedData'], [
            ('version', 'version', 1), ('certificates', lambda o: sorted(int(c.getComponent()[0]['serialNumber']) for c in o['certificates']),
                                        sorted([who['ec'][1], who['rsa'][1]])),
            ('signers', lambda o: len(o['signerInfos']), 0)], again_too=False)
    elif c == 7:
        md, mid = rng.choice(DIG)
        der = ossl(d, 'smime', '-sign', '-binary', '-nodetach', '-in', 'data', '-outform', 'DER', '-signer', 'rsa.crt', '-inkey', '%s/rsa.pem' % keys, '-md', md)
        judge(rec, 'pkcs7 signed', der, ['rfc2315.ContentInfo'] + CMS, [('content type', 'contentType', '1.2.840.113549.1.7.2')])
        o = der_decoder.decode(der, asn1Spec=module('rfc2315').ContentInfo())[0]
        judge(rec, 'pkcs7 signed content', bytes(o['content']), ['rfc2315.SignedData'], [
            ('version', 'version', 1), ('digest', 'digestAlgorithms.0.algorithm', mid),
            ('signer', lambda o: (names(o['signerInfos'][0][1][0]), int(o['signerInfos'][0][1][1])), who['rsa'])], md)
    else:
        der = ossl(d, 'smime', '-encrypt', '-binary', '-in', 'data', '-outform', 'DER', '-aes128', 'rsa.crt')
        judge(rec, 'pkcs7 enveloped', der, ['rfc2315.ContentInfo'] + CMS, [('content type', 'contentType', '1.2.840.113549.1.7.3')])
        o = der_decoder.decode(der, asn1Spec=module('rfc2315').ContentInfo())[0]
        judge(rec, 'pkcs7 enveloped content', bytes(o['content']), ['rfc2315.EnvelopedData', 'rfc5652.EnvelopedData', 'rfc3852.EnvelopedData'], [
            ('version', 'version', 0), ('cipher', 'encryptedContentInfo.contentEncryptionAlgorithm.algorithm', '2.16.840.1.101.3.4.1.2')])


def pkcs12(rec, rng, d, keys):
    signers(rng, d, keys)
    name = word(rng, 20, True)
    enc = rng.random() < 0.5
    k = rng.choice(['ec', 'rsa'])
    args = ['pkcs12', '-export', '-inkey', '%s/%s.pem' % (keys, k), '-in', k + '.crt', '-certfile', 'dsa.crt', '-name', name, '-passout', 'pass:x']
    it = rng.choice([1, 1000, 2048])
    args += ['-iter', it] if rng.random() < 0.5 else ['-iter', it, '-macalg', 'sha256']
    if not enc:
        args += ['-keypbe', 'NONE', '-certpbe', 'NONE']
    mac = rng.random() < 0.8
    args += ['-nomac'] * (not mac)
    der = ossl(d, *args)
    judge(rec, 'pkcs12', der, ['rfc7292.PFX'], [
        ('version', 'version', 3), ('mac', lambda o: has(o, 'macData'), mac),
        ('iterations', lambda o: int(o['macData']['iterations']) if mac else it, it),
        ('content type', 'authSafe.contentType', '1.2.840.113549.1.7.1')], args)
    o = der_decoder.decode(der, asn1Spec=module('rfc7292').PFX())[0]
    safe = der_decoder.decode(bytes(o['authSafe']['content']))[0]
    judge(rec, 'pkcs12 safe', bytes(safe), ['rfc7292.AuthenticatedSafe'], [('parts', len, 2)], args)
    if not enc:
        s = der_decoder.decode(bytes(safe), asn1Spec=module('rfc7292').AuthenticatedSafe())[0]
        for i, want in enumerate([['1.2.840.113549.1.12.10.1.3'] * 2, ['1.2.840.113549.1.12.10.1.1']]):
            body = bytes(der_decoder.decode(bytes(s[i]['content']))[0])

            def friendly(o):
                for b in o:
                    if has(b, 'bagAttributes'):
                        for a in b['bagAttributes']:
                            if str(a[0]) == '1.2.840.113549.1.9.20':
                                return str(a[1][0])
            judge(rec, 'pkcs12 bags', body, ['rfc7292.SafeContents'], [
                ('bags', lambda o: [str(b['bagId']) for b in o], want), ('friendlyName', friendly, name, lambda t, opn: opn)], args)


def ocsp(rec, rng, d, keys):
    der, facts, det, (key, skey, serial) = make_cert(rng, d, keys, ['bc'])
    md, mid = rng.choice(DIG)
    nonce = rng.random() < 0.5
    extra = rng.getrandbits(90) + 1
    ossl(d, 'ocsp', '-' + md, '-issuer', 'ca.crt', '-cert', 'c.crt', '-serial', '0x%x' % extra, '-reqout', 'q', '-nonce' if nonce else '-no_nonce',
         *(['-signer', 'ca.crt', '-signkey', '%s/%s.pem' % (keys, key)] if (sgn := rng.random() < 0.3) else []))
    q = read(d, 'q')
    p = 'tbsRequest.'

    def exts_of(o, path):
        x = at(o, path)
        return sorted(str(e['extnID']) for e in x) if x.isValue else []
    judge(rec, 'ocsp request', q, ['rfc2560.OCSPRequest', 'rfc6960.OCSPRequest'], [
        ('version', p + 'version', 0), ('serials', lambda o: [int(r['reqCert']['serialNumber']) for r in at(o, p + 'requestList')], [int(serial, 16), extra]),
        ('hash', p + 'requestList.0.reqCert.hashAlgorithm.algorithm', mid), ('signed', lambda o: has(o, 'optionalSignature'), sgn),
        ('extensions', lambda o: exts_of(o, p + 'requestExtensions'), ['1.3.6.1.5.5.7.48.1.2'] if nonce else [])], det)
    st = rng.choice(['V', 'R', 'none'])
    when = stamp(rng, 1950, 2049)
    when = when if int(when[:4]) < 2050 else '2049' + when[4:]
    reason = rng.choice([None, 'keyCompromise', 'superseded'])
    line = {'V': 'V\t491231235959Z\t\t%s\tunknown\t/CN=x\n' % serial,
            'R': 'R\t491231235959Z\t%s%s\t%s\tunknown\t/CN=x\n' % (when[2:] if int(when[:4]) < 2050 else when, ',' + reason if reason else '', serial), 'none': ''}[st]
    write(d, 'index.txt', line)
    rk = rng.random() < 0.5
    nd = rng.random() < 0.5
    if key == 'ed':
        return
    ossl(d, 'ocsp', '-index', 'index.txt', '-rsigner', 'ca.crt', '-rkey', '%s/%s.pem' % (keys, key), '-CA', 'ca.crt', '-reqin', 'q', '-respout', 'p',
         '-rmd', 'sha256', *(['-resp_key_id'] * rk + (['-ndays', '3'] if nd else [])))
    r = read(d, 'p')
    judge(rec, 'ocsp response', r, ['rfc2560.OCSPResponse', 'rfc6960.OCSPResponse'], [
        ('status', 'responseStatus', 0), ('type', 'responseBytes.responseType', '1.3.6.1.5.5.7.48.1.1')], det)
    o = der_decoder.decode(r, asn1Spec=module('rfc6960').OCSPResponse())[0]
    t = 'tbsResponseData.'

    def states(o):
        return [(int(s['certID']['serialNumber']), s['certStatus'].getName()) for s in at(o, t + 'responses')]

    def rev(o):
        c = at(o, t + 'responses.0.certStatus').getComponent()
        return str(c['revocationTime']), int(c['revocationReason']) if has(c, 'revocationReason') else None
    f = [('version', t + 'version', 0), ('states', states, [(int(serial, 16), {'V': 'good', 'R': 'revoked', 'none': 'unknown'}[st]), (extra, 'unknown')]),
         ('responder', lambda o: at(o, t + 'responderID').getName(), 'byKey' if rk else 'byName'),
         ('next', lambda o: has(o, t + 'responses.0.nextUpdate'), nd),
         ('extensions', lambda o: exts_of(o, t + 'responseExtensions'), ['1.3.6.1.5.5.7.48.1.2'] if nonce else [])]
    if st == 'R':
        f.append(('revocation', rev, (when, {'keyCompromise': 1, 'superseded': 4, None: None}[reason])))
    judge(rec, 'ocsp basic response', bytes(o['responseBytes']['response']), ['rfc2560.BasicOCSPResponse', 'rfc6960.BasicOCSPResponse'], f, det)


def tsp(rec, rng, d, keys):
    import hashlib
    data = bytes(rng.randrange(256) for _ in range(30))
    write(d, 'data', data)
    md, mid = rng.choice(DIG)
    pol = oid(rng)
    nonce, crt, usepol = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    ossl(d, 'ts', '-query', '-data', 'data', '-' + md, '-out', 'q', *(['-no_nonce'] * (not nonce) + ['-cert'] * crt + (['-tspolicy', pol] if usepol else [])))
    q = read(d, 'q')
    h = hashlib.new(md, data).digest()
    judge(rec, 'tsp request', q, ['rfc3161.TimeStampReq'], [
        ('version', 'version', 1), ('hash', 'messageImprint.hashAlgorithm.algorithm', mid), ('imprint', 'messageImprint.hashedMessage', h),
        ('certReq', 'certReq', crt), ('nonce', lambda o: has(o, 'nonce'), nonce),
        ('policy', lambda o: str(o['reqPolicy']) if has(o, 'reqPolicy') else None, pol if usepol else None)])
    lines, name = dn(rng)
    write(d, 'n.cnf', '[req]\ndistinguished_name=n\nprompt=no\nutf8=yes\nx509_extensions=x\n[n]\n%s\n[x]\nextendedKeyUsage=critical,timeStamping\n' % '\n'.join(lines))
    k = rng.choice(['rsa', 'ec'])
    ossl(d, 'req', '-new', '-x509', '-utf8', '-config', 'n.cnf', '-key', '%s/%s.pem' % (keys, k), '-out', 't.crt', '-days', 10)
    serial = rng.getrandbits(100) | 1
    write(d, 'tsaserial', '%030X' % serial)
    acc = rng.choice([None, (1, None, None), (None, 500, None), (2, 999, 100), (None, None, 7)])
    sname, ordering = rng.random() < 0.5, rng.random() < 0.5
    okmd = rng.random() < 0.8
    write(d, 't.cnf', '[tsa]\ndefault_tsa=t\n[t]\nserial=tsaserial\nsigner_digest=sha256\ndefault_policy=%s\ndigests=%s\n%stsa_name=%s\nordering=%s\ness_cert_id_alg=%s\n' % (
        pol, 'sha1,sha256,sha384,sha512' if okmd else {'sha1': 'sha256'}.get(md, 'sha1'),
        '' if acc is None else 'accuracy=%s\n' % ','.join('%s:%d' % p for p in zip(('secs', 'millisecs', 'microsecs'), acc) if p[1] is not None),
        'yes' if sname else 'no', 'yes' if ordering else 'no', rng.choice(['sha1', 'sha256', 'sha512'])))
    ossl(d, 'ts', '-reply', '-queryfile', 'q', '-config', 't.cnf', '-signer', 't.crt', '-inkey', '%s/%s.pem' % (keys, k), '-out', 'p', any=True)
    r = read(d, 'p')
    if not okmd:
        judge(rec, 'tsp refusal', r, ['rfc3161.TimeStampResp'], [
            ('status', 'status.status', 2), ('failure', lambda o: bits(at(o, 'status.failInfo')), {0}),
            ('token', lambda o: has(o, 'timeStampToken'), False)])
        return
    judge(rec, 'tsp response', r, ['rfc3161.TimeStampResp'], [
        ('status', 'status.status', 0), ('token', 'timeStampToken.contentType', '1.2.840.113549.1.7.2')])
    o = der_decoder.decode(r, asn1Spec=module('rfc3161').TimeStampResp())[0]
    sd = bytes(o['timeStampToken']['content'])
    judge(rec, 'tsp token', sd, ['rfc5652.SignedData'], [
        ('content type', 'encapContentInfo.eContentType', '1.2.840.113549.1.9.16.1.4'),
        ('certificate', lambda o: has(o, 'certificates'), crt)])
    o = der_decoder.decode(sd, asn1Spec=module('rfc5652').SignedData())[0]

    def accuracy(o):
        if not has(o, 'accuracy'):
            return None
        return tuple(int(o['accuracy'][x]) if o['accuracy'][x].isValue else None for x in ('seconds', 'millis', 'micros'))
    judge(rec, 'tsp info', bytes(o['encapContentInfo']['eContent']), ['rfc3161.TSTInfo'], [
        ('version', 'version', 1), ('policy', 'policy', pol), ('imprint', 'messageImprint.hashedMessage', h), ('serial', 'serialNumber', serial + 1),
        ('accuracy', accuracy, acc), ('ordering', 'ordering', ordering),
        ('nonce', lambda o: has(o, 'nonce'), nonce), ('tsa', lambda o: general(o['tsa']) if has(o, 'tsa') else None, ('directoryName', name) if sname else None)])


BODY = {'ir': 'ir', 'cr': 'cr', 'kur': 'kur', 'p10cr': 'p10cr', 'rr': 'rr', 'genm': 'genm'}


def cmp_(rec, rng, d, keys):
    who = signers(rng, d, keys)
    lines, subject = dn(rng)
    cmd = rng.choice(sorted(BODY))
    ref, sn, kn = word(rng, 12), word(rng, 12), word(rng, 12)
    args = ['cmp', '-cmd', cmd, '-use_mock_srv', '-secret', 'pass:abc', '-ref', ref, '-srv_secret', 'pass:abc', '-srv_ref', 'other',
            '-recipient', '/CN=' + sn, '-rsp_cert', 'ec.crt', '-reqout', 'q,q2', '-rspout', 'p,p2', '-certout', 'o.pem', '-trusted', 'ec.crt', '-batch']
    facts = []
    if cmd in ('ir', 'cr', 'kur'):
        args += ['-newkey', '%s/ec.pem' % keys, '-subject', '/CN=' + kn, '-issuer', '/CN=' + ref]
        days = rng.choice([None, 30])
        args += ['-days', days] if days else []
        pop = rng.choice([-1, 0, 1])
        args += ['-popo', pop]
        t = 'body.%s.0.certReq.certTemplate.' % cmd
        facts += [('subject', lambda o: names(at(o, t + 'subject')), [[('2.5.4.3', kn)]]),
                  ('key', lambda o: str(at(o, t + 'publicKey')[0][0]), KEYOID['ec']),
                  ('validity', lambda o: has(o, t + 'validity'), bool(days)),
                  ('possession', lambda o: at(o, 'body.%s.0' % cmd)['pop' if 'pop' in at(o, 'body.%s.0' % cmd).componentType else 'popo'].getName()
                   if at(o, 'body.%s.0' % cmd)['pop' if 'pop' in at(o, 'body.%s.0' % cmd).componentType else 'popo'].isValue else None,
                   {-1: None, 0: 'raVerified', 1: 'signature'}[pop])]
        if cmd == 'kur':
            args += ['-oldcert', 'ec.crt', '-key', '%s/ec.pem' % keys, '-cert', 'ec.crt']
    elif cmd == 'p10cr':
        ossl(d, 'req', '-new', '-key', '%s/ec.pem' % keys, '-subj', '/CN=' + kn, '-out', 'r.csr')
        args += ['-csr', 'r.csr']
        facts.append(('subject', lambda o: names(at(o, 'body.p10cr.certificationRequestInfo.subject')), [[('2.5.4.3', kn)]]))
    elif cmd == 'rr':
        rr = rng.choice([0, 1, 4, 6])
        args += ['-oldcert', 'rsa.crt', '-revreason', rr]
        facts += [('serial', 'body.rr.0.certDetails.serialNumber', who['rsa'][1])]
    else:
        args += ['-infotype', 'signKeyPairTypes'] if rng.random() < 0.7 else []
    imp = rng.random() < 0.3
    args += ['-implicit_confirm'] * imp
    ossl(d, *args, any=True)
    base = [('version', 'header.pvno', 2), ('recipient', lambda o: general(at(o, 'header.recipient')), ('directoryName', [[('2.5.4.3', sn)]])),
            ('kind', lambda o: o['body'].getName(), cmd)]
    if cmd != 'kur':
        base += [('sender key', 'header.senderKID', ref.encode()), ('protection', 'header.protectionAlg.algorithm', '1.2.840.113533.7.66.13')]
    judge(rec, 'cmp request', read(d, 'q'), ['rfc4210.PKIMessage'], base + facts, args)
    for n in ('q2', 'p', 'p2'):
        try:
            der = read(d, n)
        except Skip:
            continue
        judge(rec, 'cmp ' + n, der, ['rfc4210.PKIMessage'], [('version', 'header.pvno', 2)], args)


KINDS = [cert, cert, cert, cert, crl, crl, csr, csr, keysjob, keysjob, cms, cms, cms, pkcs12, ocsp, ocsp, tsp, tsp, cmp_, cmp_]


def job(rec, item, rng):
    i, keys, scratch = item
    kind = KINDS[i % len(KINDS)]
    d = os.path.join(scratch, 'j%d' % i)
    os.makedirs(d, exist_ok=True)
    try:
        kind(rec, rng, d, keys)
        rec.count('made ' + kind.__name__)
    except Skip as e:
        rec.count('not made ' + kind.__name__)
        rec.sample(skipped=str(e))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    everything()
    r = module('rfc5280')
    # four of the profile's extensions are in no registry
    MAP.update({'2.5.29.54': r.InhibitAnyPolicy(), '2.5.29.46': r.FreshestCRL(), '1.3.6.1.5.5.7.1.11': r.SubjectInfoAccessSyntax(),
                '1.3.6.1.5.5.7.48.1.5': U.Null()})
    MAP.update((str(k), v) for k, v in r.certificateExtensionsMap.items())
    keys = os.path.join(ck.scratch, 'keys')
    os.makedirs(keys)
    ossl(keys, 'ecparam', '-name', 'prime256v1', '-genkey', '-noout', '-out', 'ec.pem')
    ossl(keys, 'ecparam', '-name', 'secp384r1', '-genkey', '-noout', '-out', 'ec384.pem')
    ossl(keys, 'genrsa', '-out', 'rsa.pem', '1536')
    ossl(keys, 'genpkey', '-algorithm', 'RSA-PSS', '-pkeyopt', 'rsa_keygen_bits:1024', '-pkeyopt', 'rsa_pss_keygen_md:sha256',
         '-pkeyopt', 'rsa_pss_keygen_mgf1_md:sha256', '-pkeyopt', 'rsa_pss_keygen_saltlen:20', '-out', 'rsapss.pem')
    ossl(keys, 'dsaparam', '-genkey', '-out', 'dsa.pem', '1024')
    ossl(keys, 'genpkey', '-algorithm', 'ed25519', '-out', 'ed.pem')
    ossl(keys, 'genpkey', '-algorithm', 'x25519', '-out', 'x.pem')
    n = ck.pick(2000, 4000)
    ck.map(job, [(i, keys, ck.scratch) for i in range(n)], 'm', chunk=4)
    r = 1
    while ck.thorough and ck.elapsed() < 350 and r < 20:
        ck.map(job, [(i + r * n, keys, ck.scratch) for i in range(n)], 'm%d' % r, chunk=4, budget=450)
        r += 1
    for k in {f.__name__ for f in KINDS}:
        made, lost = ck.rec.counts['made ' + k], ck.rec.counts['not made ' + k]
        if lost > made // 2 + 2 and not ck.rec.bads:
            ck.errors.append('openssl made only %d of %d messages for %s' % (made, made + lost, k))
