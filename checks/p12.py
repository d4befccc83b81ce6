"""The OCSP and SNMP clients ask exactly what they are told to ask, and report
exactly what is answered."""
import copy
import hashlib
import http.server
import os
import socket
import subprocess
import sys
import tempfile
import threading

import harness
import mutate
import ref
from p11 import block, call, mined, missing, path, tokens
from work import R, S, bridge, rep, short

RULE = ('the OCSP client is run against a responder on the loopback interface with random issuer and user '
        'certificates and random, failing, foreign or damaged answers; the SNMP client against a stand-in socket that '
        'records the datagram and answers in the same ways. Requests are judged by an independent decoder and '
        'independently computed hashes (and by the request openssl makes); the report must show the serial number, '
        'status and times of the answer, or name and value; anything but a proper answer must end in a failing exit '
        'status. Distinct by (tool, input, answer).')
MIN = 900
OCSP_BASIC = (1, 3, 6, 1, 5, 5, 7, 48, 1, 1)


def nid(m, k):
    return S.modules[m]['types'][k]


class Responder(object):
    """an HTTP server that records one request and answers as told"""

    def __enter__(self):
        me = self
        self.got = []
        self.answer = b''
        self.status = 200

        class H(http.server.BaseHTTPRequestHandler):
            def do_POST(self):
                me.got.append((self.path, self.headers.get('Content-Type'), self.rfile.read(int(self.headers.get('Content-Length') or 0))))
                self.send_response(me.status)
                self.send_header('Content-Type', 'application/ocsp-response')
                self.send_header('Content-Length', str(len(me.answer)))
                self.end_headers()
                self.wfile.write(me.answer)

            def do_GET(self):
                me.got.append((self.path, 'GET', b''))
                self.send_error(405)

            def log_message(self, *a):
                pass
        self.s = http.server.HTTPServer(('127.0.0.1', 0), H)
        self.s.daemon_threads = True
        self.t = threading.Thread(target=self.s.serve_forever, kwargs={'poll_interval': 0.02}, daemon=True)
        self.t.start()
        return self

    def url(self, rng):
        return 'http://127.0.0.1:%d/%s' % (self.s.server_port, rng.choice(['', 'ocsp', 'a/b?c=1']))

    def __exit__(self, *a):
        self.s.shutdown()
        self.s.server_close()


def name(g, rng, like=None):
    return g.random(nid('rfc2459', 'Name'), rng.choice([5, 20]))


def kin(g, rng, like):
    """a name much like another"""
    x = copy.deepcopy(like)
    rdns = x[1]
    if not rdns:
        return name(g, rng)
    i = rng.randrange(len(rdns))
    how = rng.choice(['drop', 'twice', 'swap', 'value', 'type', 'cut'])
    if how == 'drop':
        del rdns[i]
    elif how == 'twice':
        rdns.append(copy.deepcopy(rdns[i]))
    elif how == 'swap':
        rdns.reverse()
    elif rdns[i]:
        a = rdns[i][rng.randrange(len(rdns[i]))]
        if how == 'type':
            a['type'] = a['type'][:-1] + (a['type'][-1] + 1,)
        else:
            b = a['value']
            if how == 'cut' or b[-1:].swapcase() == b[-1:]:
                a['value'] = b'\x0c\x04Evil'
            else:
                a['value'] = b[:-1] + b[-1:].swapcase()
    return x


def certs(g, rng):
    ca, user = g.random(nid('rfc2459', 'Certificate'), 40), g.random(nid('rfc2459', 'Certificate'), 40)
    user['tbsCertificate']['issuer'] = ca['tbsCertificate']['subject']
    if rng.random() < 0.9:
        k = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 200)))
        ca['tbsCertificate']['subjectPublicKeyInfo']['subjectPublicKey'] = ''.join(format(b, '08b') for b in k)
    else:
        ca['tbsCertificate']['subjectPublicKeyInfo']['subjectPublicKey'] = ''
    user['tbsCertificate']['serialNumber'] = rng.choice([0, 1, 127, 128, 255, 256, rng.getrandbits(64), rng.getrandbits(159),
                                                         -1, -128, -rng.getrandbits(64) - 1, rng.getrandbits(300)])
    return ca, user


def keybytes(bits):
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def answers(g, rng, serial):
    """(kind, octets, what must be shown)"""
    basic = g.random(nid('rfc2560', 'BasicOCSPResponse'), 40)
    t = basic['tbsResponseData']
    if not t['responses']:
        t['responses'] = [g.random(nid('rfc2560', 'SingleResponse'), 10)]
    r0 = t['responses'][0]
    if rng.random() < 0.7:
        r0['certID']['serialNumber'] = serial
    rsp = {'responseStatus': 0, 'responseBytes': {'responseType': OCSP_BASIC, 'response': R.der(nid('rfc2560', 'BasicOCSPResponse'), basic)}}
    enc = lambda x: R.der(nid('rfc2560', 'OCSPResponse'), x)
    kind = rng.choice(['good'] * 5 + ['status', 'type', 'nobytes', 'damaged', 'cut', 'inner', 'empty', 'http'])
    data = enc(rsp)
    if kind == 'status':
        rsp['responseStatus'] = rng.choice([1, 2, 3, 5, 6])
        data = enc(rsp)
    elif kind == 'type':
        rsp['responseBytes']['responseType'] = rng.choice([OCSP_BASIC[:-1], OCSP_BASIC[:-1] + (2,), OCSP_BASIC + (1,), (1, 2, 3)])
        data = enc(rsp)
    elif kind == 'nobytes':
        data = enc({'responseStatus': rng.choice([0, 0, 1, 6])})
    elif kind == 'damaged':
        ms = [x for op, x in mutate.mutants(data, rng, 8) if bad(nid('rfc2560', 'OCSPResponse'), x)]
        kind, data = ('damaged', rng.choice(ms)) if ms else ('cut', data[:-1])
    elif kind == 'inner':
        b = rsp['responseBytes']['response']
        ms = [x for op, x in mutate.mutants(b, rng, 8) if bad(nid('rfc2560', 'BasicOCSPResponse'), x)]
        rsp['responseBytes']['response'] = rng.choice(ms) if ms else b[:-1]
        data = enc(rsp)
    elif kind == 'cut':
        data = data[:rng.randrange(1, len(data))]
    elif kind == 'empty':
        data = b''
    show = [str(r0['certID']['serialNumber']), r0['certStatus'][0], t['producedAt'], r0['thisUpdate']]
    return kind, data, show


def bad(n, x):
    try:
        R.decode_one(n, x)
        return False
    except ref.Soft:
        return False
    except (ref.Bad, RecursionError):
        return True


def ocsp(rec, rng, srv, real=None):
    g = ref.Gen(S, rng)
    ref.MINED[:] = mined('ocspclient')
    if real:
        ca_der, user_der, want = real
        serial = want['serialNumber']
        other = False
    else:
        ca, user = certs(g, rng)
        other = rng.random() < 0.15
        if other:
            user['tbsCertificate']['issuer'] = rng.choice([name, kin])(g, rng, ca['tbsCertificate']['subject'])
            other = R.der(nid('rfc2459', 'Name'), user['tbsCertificate']['issuer']) != R.der(nid('rfc2459', 'Name'), ca['tbsCertificate']['subject'])
        ca_der, user_der = R.der(nid('rfc2459', 'Certificate'), ca), R.der(nid('rfc2459', 'Certificate'), user)
        serial = user['tbsCertificate']['serialNumber']
        want = {'issuerNameHash': hashlib.sha1(R.der(nid('rfc2459', 'Name'), user['tbsCertificate']['issuer'])).digest(),
                'issuerKeyHash': hashlib.sha1(keybytes(ca['tbsCertificate']['subjectPublicKeyInfo']['subjectPublicKey'])).digest(),
                'serialNumber': serial}
    kind, srv.answer, show = answers(g, rng, serial)
    srv.got = []
    srv.status = rng.choice([400, 403, 404, 500, 503]) if kind == 'http' else 200
    text = block('CERTIFICATE', ca_der, rng) + rng.choice(['', 'prose\n']) + block('CERTIFICATE', user_der, rng)
    rc, out = call('ocspclient', text, srv.url(rng))
    rec.see(('ocsp', text, srv.answer), **{'ocsp ' + kind: 1})
    d = dict(input=text, answer=srv.answer.hex(), kind=kind)
    if rc == 'hang':
        return rec.bad('ocsp-hang', 'ocspclient does not end', **d)
    if other:
        if srv.got or rc == 0:
            rec.bad('ocsp-mismatch', 'ocspclient asks about a certificate of another issuer (exit status %s)' % rc, **d)
        return
    if len(srv.got) != 1:
        return rec.bad('ocsp-requests', 'ocspclient sends %d requests; exit status %s: %s' % (len(srv.got), rc, out[-200:]), **d)
    p, ctype, body = srv.got[0]
    if ctype != 'application/ocsp-request':
        rec.bad('ocsp-type', 'ocspclient sends its request as %s' % ctype, **d)
    try:
        req = R.decode(nid('rfc2560', 'OCSPRequest'), body)
        tbs = req['tbsRequest']
        cid = tbs['requestList'][0]['reqCert']
        ok = (len(tbs['requestList']) == 1 and tbs.get('version', 0) == 0 and R.der(nid('rfc2560', 'OCSPRequest'), req) == body
              and cid['hashAlgorithm']['algorithm'] == (1, 3, 14, 3, 2, 26) and all(cid[k] == want[k] for k in want))
    except Exception as e:
        ok, req = False, short(e)
    if not ok:
        rec.bad('ocsp-request', 'ocspclient asks %s instead of %s' % (rep(req, 400), rep(want, 300)), request=body.hex(), **d)
    if kind == 'good':
        if rc != 0:
            rec.bad('ocsp-fails', 'ocspclient fails on a good answer: %s' % out[-300:], **d)
        elif missing(out, show):
            rec.bad('ocsp-report', 'ocspclient says %r, the answer says %r' % (out[:200], show), **d)
    elif rc == 0:
        rec.bad('ocsp-accepts-' + kind, 'ocspclient reports %r on a %s answer' % (out[:200], kind), **d)


def openssl_pair(rec, n, rng):
    """a CA and user certificate and the CertID openssl asks about"""
    with tempfile.TemporaryDirectory(prefix='verif-P12-') as d:
        run = lambda *a: subprocess.run(('openssl',) + a, cwd=d, capture_output=True, timeout=120)
        alg = ['ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1'] if n % 2 else ['rsa:1024']
        run('req', '-x509', '-newkey', *(alg + ['-nodes', '-keyout', 'ca.key', '-subj', '/C=NL/O=Q %d/CN=ca' % n, '-out', 'ca.pem']))
        run('req', '-newkey', *(alg + ['-nodes', '-keyout', 'u.key', '-subj', '/CN=u%d' % n, '-out', 'u.csr']))
        run('x509', '-req', '-in', 'u.csr', '-CA', 'ca.pem', '-CAkey', 'ca.key', '-set_serial', str(rng.getrandbits(100) + 1), '-out', 'u.pem')
        run('ocsp', '-issuer', 'ca.pem', '-cert', 'u.pem', '-no_nonce', '-reqout', 'req.der')
        out = []
        for f in ('ca.pem', 'u.pem'):
            out.append(run('x509', '-in', f, '-outform', 'DER').stdout)
        try:
            with open(os.path.join(d, 'req.der'), 'rb') as f:
                c = R.decode(nid('rfc2560', 'OCSPRequest'), f.read())['tbsRequest']['requestList'][0]['reqCert']
        except Exception:
            rec.count('openssl step not available')
            return None
        return out[0], out[1], dict((k, c[k]) for k in ('issuerNameHash', 'issuerKeyHash', 'serialNumber'))


class Wire(object):
    """stands in for the socket: nothing leaves the process"""
    sent, answer = [], b''

    def __init__(self, *a, **k):
        pass

    def sendto(self, data, *a):
        Wire.sent.append((bytes(data), a[-1]))
        return len(data)

    def connect(self, a):
        self.peer = a

    def send(self, data):
        return self.sendto(data, self.peer)

    def recvfrom(self, n, *a):
        return Wire.answer[:n], ('192.0.2.1', 161)

    def recv(self, n, *a):
        return Wire.answer[:n]

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def snmp(rec, rng):
    g = ref.Gen(S, rng)
    ref.MINED[:] = mined('snmpget')
    mid = nid('rfc1157', 'Message')
    community = ''.join(rng.choice('abcXYZ019-_. /@') for _ in range(rng.choice([1, 6, 20, 130])))
    oid = (1, 3, 6, 1) + tuple(rng.choice([0, 1, 2, 127, 128, 16383, 16384, 2 ** 32 - 1]) for _ in range(rng.randrange(0, 12)))
    v = g.random(mid, 30)
    v['version'] = 0
    if rng.random() < 0.7:
        pdu = g.random(nid('rfc1157', 'GetResponsePDU'), 20)
        v['data'] = ('get-response', pdu)
    data = R.der(mid, v)
    kind = rng.choice(['good', 'good', 'good', 'damaged', 'cut', 'empty'])
    if len(data) > 2048:
        kind = 'long'
    if kind == 'damaged':
        ms = [x for op, x in mutate.mutants(data, rng, 8) if bad(mid, x)]
        kind, data = ('damaged', rng.choice(ms)) if ms else ('cut', data[:-1])
    elif kind == 'cut':
        data = data[:rng.randrange(1, len(data))]
    elif kind == 'empty':
        data = b''
    Wire.sent, Wire.answer = [], data
    real, socket.socket = socket.socket, Wire
    try:
        rc, out = call('snmpget', '', community, 'agent.example', '.'.join(str(x) for x in oid))
    finally:
        socket.socket = real
    rec.see(('snmp', community, oid, data), **{'snmp ' + kind: 1})
    d = dict(community=community, oid=oid, answer=data.hex(), kind=kind)
    if rc == 'hang':
        return rec.bad('snmp-hang', 'snmpget does not end', **d)
    if len(Wire.sent) != 1 or tuple(Wire.sent[0][1]) != ('agent.example', 161):
        return rec.bad('snmp-requests', 'snmpget sends %s; exit status %s: %s' % (short(Wire.sent, 120), rc, out[-200:]), **d)
    try:
        req = R.decode(mid, Wire.sent[0][0])
        what, pdu = req['data']
        ok = (req['version'] == 0 and req['community'] == community.encode() and what == 'get-request' and pdu['error-status'] == 0
              and pdu['error-index'] == 0 and [(b['name'], b['value']) for b in pdu['variable-bindings']] == [(oid, ('simple', ('empty', None)))])
    except Exception as e:
        ok, req = False, short(e)
    if not ok:
        rec.bad('snmp-request', 'snmpget asks %s' % rep(req, 400), request=Wire.sent[0][0].hex(), **d)
    if kind == 'good' or kind == 'long' and rc == 0:
        # the request is shown first, and its community holds no line ends
        tail = out[max(0, out.find('\nreceived:')):]
        if rc != 0:
            rec.bad('snmp-fails', 'snmpget fails on a good answer: %s' % out[-300:], **d)
        elif missing(tail, list(tokens(mid, R.decode(mid, data)))):
            rec.bad('snmp-report', 'snmpget shows %r for the answer %s' % (tail[:300], rep(v, 300)), **d)
    elif rc == 0:
        rec.bad('snmp-accepts-' + kind, 'snmpget shows %r on a %s answer' % (out[-200:], kind), **d)


def usage(rec, rng):
    for tool, n in (('ocspclient', 1), ('snmpget', 3)):
        for k in range(5):
            if k == n:
                continue
            real, socket.socket = socket.socket, Wire
            Wire.sent = []
            try:
                rc, out = call(tool, '', *(['x'] * k))
            finally:
                socket.socket = real
            rec.see(('usage', tool, k))
            if rc == 0 or 'sage' not in out or Wire.sent:
                rec.bad('usage:' + tool, '%s with %d arguments: exit status %s, output %r' % (tool, k, rc, out[:100]))


def job(rec, item, rng):
    what, n = item
    if what == 'snmp':
        for _ in range(n):
            snmp(rec, rng)
        usage(rec, rng)
        return
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    with Responder() as srv:
        if what == 'openssl':
            pair = openssl_pair(rec, n, rng)
            for _ in range(3):
                if pair:
                    ocsp(rec, rng, srv, pair)
            return
        for _ in range(n):
            ocsp(rec, rng, srv)


def run(ck):
    for t in ('ocspclient', 'snmpget'):
        if not os.path.exists(path(t)):
            ck.rec.bad('tool:' + t, 'tools/%s.py is gone' % t)
    k = 0
    while k == 0 or (ck.thorough and ck.elapsed() < 300):
        ck.map(job, [('ocsp', 40)] * 80 + [('snmp', 40)] * 48 + [('openssl', k * 10 + i) for i in range(4)], 'r%d' % k, chunk=1)
        k += 1
