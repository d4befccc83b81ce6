"""Independent reference: spec loader, DER/BER encoder, structural decoder and
value generator.  Uses no pyasn1 code at all: it only knows spec/spec.json.

Abstract values
    bool/int/enum -> bool/int     bits -> '0101'      octets -> bytes
    null -> None                  oid -> (1, 2, 3)    strings, times -> str
    any -> bytes (a complete TLV) or Open (typed content)
    choice -> (name, value)       seq/set -> {name: value}
    seqof/setof -> [value, ...]
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC_PATH = os.path.join(os.path.dirname(HERE), 'spec', 'spec.json')

TEXT = {
    'utf8': ('utf-8', 12), 'numeric': ('ascii', 18), 'printable': ('ascii', 19),
    'teletex': ('latin-1', 20), 'videotex': ('latin-1', 21), 'ia5': ('ascii', 22),
    'graphic': ('latin-1', 25), 'visible': ('ascii', 26), 'general': ('latin-1', 27),
    'universal': ('utf-32-be', 28), 'bmp': ('utf-16-be', 30),
    'utctime': ('ascii', 23), 'gtime': ('ascii', 24), 'objdesc': ('ascii', 7),
}
# constants found in functions of the code under test: see work.mine
MINED = []
CONSTRUCTED = ('seq', 'set', 'seqof', 'setof', 'choice')


class Spec(object):
    def __init__(self, path=SPEC_PATH):
        with open(path) as f:
            d = json.load(f)
        self.modules = d['modules']
        self.maps = d['maps']
        self.nodes = d['nodes']
        for i, n in self.nodes.items():
            n['id'] = i
            n['t'] = [tuple(x) for x in n['t']]
            for f in n.get('f', ()):
                f.setdefault('q', 'm')
        self.named = set()
        for M in self.modules.values():
            for t in M['types'].values():
                self.named.add(t)
        self._first = {}

    def node(self, x):
        return self.nodes[x]

    def types(self):
        for m in sorted(self.modules):
            for k in sorted(self.modules[m]['types']):
                yield m, k, self.modules[m]['types'][k]

    def first_tags(self, nid):
        """set of outermost (class, number) a value of this node may start
        with; None means anything (untagged ANY)"""
        if nid in self._first:
            return self._first[nid]
        n = self.nodes[nid]
        if n['t']:
            r = {n['t'][0]}
        elif n['k'] == 'any':
            r = None
        elif n['k'] == 'choice':
            r = set()
            for f in n['f']:
                s = self.first_tags(f['t'])
                if s is None:
                    r = None
                    break
                r |= s
        else:
            raise ValueError(n)
        self._first[nid] = r
        return r


class Open(object):
    """Typed content of an open type field: node id + abstract value."""
    __slots__ = ('nid', 'val')

    def __init__(self, nid, val):
        self.nid = nid
        self.val = val

    def __eq__(self, other):
        return isinstance(other, Open) and (self.nid, self.val) == (other.nid, other.val)

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Open(%s, %r)' % (self.nid, self.val)


# ---------------------------------------------------------------- encoding

def enc_len(n, pad=0):
    if n < 0x80 and not pad:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
    b = b'\0' * pad + b
    return bytes([0x80 | len(b)]) + b


def enc_tag(cls, num, constructed):
    first = (cls << 6) | (0x20 if constructed else 0)
    if num < 31:
        return bytes([first | num])
    out = [num & 0x7f]
    num >>= 7
    while num:
        out.append(0x80 | (num & 0x7f))
        num >>= 7
    return bytes([first | 31]) + bytes(reversed(out))


def tlv(cls, num, constructed, body):
    return enc_tag(cls, num, constructed) + enc_len(len(body)) + body


def enc_int(v):
    n = (v.bit_length() // 8) + 1
    return v.to_bytes(n, 'big', signed=True)


def enc_oid(o):
    if o[0] == 2:
        subs = (80 + o[1],) + tuple(o[2:])
    else:
        subs = (o[0] * 40 + o[1],) + tuple(o[2:])
    out = b''
    for s in subs:
        c = [s & 0x7f]
        s >>= 7
        while s:
            c.append(0x80 | (s & 0x7f))
            s >>= 7
        out += bytes(reversed(c))
    return out


def enc_bits(s):
    pad = -len(s) % 8
    if not s:
        return b'\0'
    return bytes([pad]) + int(s + '0' * pad, 2).to_bytes((len(s) + pad) // 8, 'big')


class Style(object):
    """How to write a value down; the default is DER."""
    long_len = 0         # superfluous length octets
    indef = False        # indefinite length for constructed
    chunk = 0            # constructed string fragments of that size
    shuffle_set = None   # rng: reverse/shuffle SET / SET OF members
    explicit_defaults = False
    true = 0xff
    der_sort = True
    format_sort = False


DER = Style()


class Ref(object):
    # model the known finding on primitive tags around an ANY (see
    # known_findings.json); the probe for it switches this off
    as_built = True

    def __init__(self, spec):
        self.spec = spec

    # wrap the innermost body in the node's tags, outermost first
    def wrap(self, tags, constructed, body, st, chunks=None):
        out = body
        for i, (cls, num) in enumerate(reversed(tags)):
            c = constructed if i == 0 else True
            out = self.tlv(cls, num, c, out, st)
        return out

    def tlv(self, cls, num, c, body, st):
        if c and st.indef:
            return enc_tag(cls, num, True) + b'\x80' + body + b'\0\0'
        return enc_tag(cls, num, c) + enc_len(len(body), st.long_len) + body

    def der(self, nid, v, st=DER):
        n = self.spec.nodes[nid]
        k = n['k']
        if k == 'any':
            if isinstance(v, Open):
                v = self.der(v.nid, v.val, st)
            for i, (cls, num) in enumerate(reversed(n['t'])):
                v = self.tlv(cls, num, bool(i) or not (n.get('prim') and self.as_built), v, st)
            return v
        if k == 'choice':
            name, x = v
            f = self.field(n, name)
            body = self.der(f['t'], x, st)
            for cls, num in reversed(n['t']):
                body = self.tlv(cls, num, True, body, st)
            return body
        body, constructed = self.body(n, v, st)
        return self.wrap(n['t'], constructed, body, st)

    def field(self, n, name):
        for f in n['f']:
            if f['n'] == name:
                return f
        raise KeyError(name)

    def default(self, f):
        if 'dv' not in f:
            f['dv'] = self.decode(f['t'], bytes.fromhex(f['d']))
        return f['dv']

    def body(self, n, v, st):
        k = n['k']
        if k in ('seq', 'set'):
            parts = []
            for f in n['f']:
                if f['n'] not in v:
                    if f['q'] == 'm':
                        raise ValueError('mandatory %s missing' % f['n'])
                    if f['q'] == 'd' and st.explicit_defaults:
                        parts.append(bytes.fromhex(f['d']))
                    continue
                x = v[f['n']]
                if f['q'] == 'd' and not st.explicit_defaults and self.norm(f['t'], x) == self.norm(f['t'], self.default(f)):
                    continue
                parts.append(self.der(f['t'], x, st))
            if k == 'set' and st.der_sort:
                parts.sort(key=self.format_key if st.format_sort else self.tag_key)
            shuffle = k == 'set' and st.shuffle_set
            if shuffle:
                shuffle.shuffle(parts)
            return b''.join(parts), True
        if k in ('seqof', 'setof'):
            parts = [self.der(n['e'], x, st) for x in v]
            if k == 'setof':
                shuffle = st.shuffle_set
                if shuffle:
                    shuffle.shuffle(parts)
                elif st.der_sort:
                    parts.sort(key=lambda p: p)
                    m = max([len(p) for p in parts] or [0])
                    parts.sort(key=lambda p: p.ljust(m, b'\0'))
            return b''.join(parts), True
        if isinstance(v, Open):           # open type in an OCTET STRING
            v = self.der(v.nid, v.val, st)
        prim = self.prim(k, v, st)
        if st.chunk and k not in ('bool', 'int', 'enum', 'null', 'oid', 'real') and len(prim) > 1:
            num = 3 if k == 'bits' else 4
            out = b''
            if k == 'bits':
                pad, data = prim[0], prim[1:]
                pieces = [data[i:i + st.chunk] for i in range(0, len(data), st.chunk)] or [b'']
                for i, p in enumerate(pieces):
                    last = i == len(pieces) - 1
                    out += tlv(0, num, False, bytes([pad if last else 0]) + p)
            else:
                for i in range(0, len(prim), st.chunk):
                    out += tlv(0, num, False, prim[i:i + st.chunk])
            return out, True
        return prim, False

    def prim(self, k, v, st):
        if k == 'bool':
            return bytes([st.true]) if v else b'\0'
        if k in ('int', 'enum'):
            return enc_int(int(v))
        if k == 'bits':
            return enc_bits(v)
        if k == 'octets':
            return v
        if k == 'null':
            return b''
        if k == 'oid':
            return enc_oid(v)
        return v.encode(TEXT[k][0])

    @staticmethod
    def tag_key(part):
        cls, con, num, _ = read_tag(part, 0)
        return (cls, num)

    @staticmethod
    def format_key(part):
        cls, con, num, _ = read_tag(part, 0)
        return (cls, con, num)

    def conforms(self, nid, v):
        """are all declared limits respected"""
        n = self.spec.nodes[nid]
        k = n['k']
        if isinstance(v, Open):
            return self.conforms(v.nid, v.val)
        if not ok(n.get('c'), k, v):
            return False
        if k == 'choice':
            return self.conforms(self.field(n, v[0])['t'], v[1])
        if k in ('seqof', 'setof'):
            return all(self.conforms(n['e'], x) for x in v)
        if k in ('seq', 'set'):
            return all(self.conforms(f['t'], v[f['n']]) for f in n['f'] if f['n'] in v)
        return True

    def norm(self, nid, v):
        """canonical form: fields equal to their DEFAULT are left out"""
        n = self.spec.nodes[nid]
        k = n['k']
        if isinstance(v, Open):
            return Open(v.nid, self.norm(v.nid, v.val))
        if k == 'choice':
            return (v[0], self.norm(self.field(n, v[0])['t'], v[1]))
        if k in ('seqof', 'setof'):
            return [self.norm(n['e'], x) for x in v]
        if k in ('seq', 'set'):
            out = {}
            for f in n['f']:
                if f['n'] in v:
                    x = self.norm(f['t'], v[f['n']])
                    if f['q'] == 'd' and x == self.norm(f['t'], self.default(f)):
                        continue
                    out[f['n']] = x
            return out
        return v

    def same(self, nid, a, b):
        """equal abstract values (SET OF members in any order)"""
        try:
            return self.der(nid, a) == self.der(nid, b)
        except (ValueError, KeyError):
            return False

    # ------------------------------------------------------------ decoding
    def decode(self, nid, data):
        v, rest = self.decode_one(nid, data)
        if rest:
            raise Bad('trailing octets')
        return v

    def decode_one(self, nid, data):
        t, end = parse(data, 0)
        v = self.from_tlv(nid, t)
        return v, data[end:]

    def from_tlv(self, nid, t):
        n = self.spec.nodes[nid]
        k = n['k']
        tags = list(n['t'])
        last = tags.pop() if (k not in ('any', 'choice') and tags) else None
        for cls, num in tags:
            if n.get('prim') and k == 'any' and not t.con and (t.cls, t.num) == (cls, num):
                return t.body
            if k == 'any' and ((t.cls, t.num) != (cls, num) or not t.con or len(t.kids) != 1):
                raise Soft('opaque value in a tag')
            if (t.cls, t.num) != (cls, num):
                raise Bad('tag %r expected, %r found' % ((cls, num), (t.cls, t.num)))
            if not t.con:
                raise Soft('primitive explicit tag')
            if len(t.kids) != 1:
                raise (Bad if not t.kids else Soft)('explicit tag holds %d values' % len(t.kids))
            t = t.kids[0]
        if k == 'any':
            return t.raw
        if k == 'choice':
            for f in n['f']:
                s = self.spec.first_tags(f['t'])
                if s is None or (t.cls, t.num) in s:
                    return (f['n'], self.from_tlv(f['t'], t))
            raise Bad('no alternative for %r' % ((t.cls, t.num),))
        if (t.cls, t.num) != last:
            raise Bad('tag %r expected, %r found' % (last, (t.cls, t.num)))
        if k in ('seq', 'set', 'seqof', 'setof'):
            if not t.con:
                raise Bad('primitive ' + k)
            if k in ('seqof', 'setof'):
                return [self.from_tlv(n['e'], x) for x in t.kids]
            if k == 'set':
                out = {}
                for x in t.kids:
                    for f in n['f']:
                        s = self.spec.first_tags(f['t'])
                        if s is None or (x.cls, x.num) in s:
                            if f['n'] in out:
                                raise Soft('twice in a SET')
                            out[f['n']] = self.from_tlv(f['t'], x)
                            break
                    else:
                        raise Bad('unexpected member in SET')
                for f in n['f']:
                    if f['q'] == 'm' and f['n'] not in out:
                        raise Bad('mandatory %s missing' % f['n'])
                return out
            out = {}
            i = 0
            soft = False
            for f in n['f']:
                s = self.spec.first_tags(f['t'])
                if i < len(t.kids) and self.swallows(f['t']) and (t.kids[i].cls, t.kids[i].num) not in s:
                    soft = True     # the codec takes anything here
                if i < len(t.kids) and (s is None or (t.kids[i].cls, t.kids[i].num) in s):
                    out[f['n']] = self.from_tlv(f['t'], t.kids[i])
                    i += 1
                elif f['q'] == 'm':
                    raise (Soft if soft else Bad)('mandatory %s missing' % f['n'])
            if i != len(t.kids):
                raise (Soft if soft else Bad)('excess components')
            return out
        return self.leaf(k, t)

    def swallows(self, nid):
        """a tagged ANY: the codec library matches it with any tag"""
        n = self.spec.nodes[nid]
        return n['k'] == 'any' and bool(n['t'])

    def leaf(self, k, t):
        if t.con:
            if k in ('bool', 'int', 'enum', 'null', 'oid', 'real'):
                raise Bad('constructed ' + k)
            want = 3 if k == 'bits' else 4
            if any((x.cls, x.num) != (0, want) for x in t.kids):
                raise Soft('odd segments')
            if k == 'bits':
                s = ''
                for x in t.kids:
                    s += self.leaf('bits', x)
                return s
            b = b''
            for x in t.kids:
                b += self.leaf('octets', x)
        else:
            b = t.body
        if k == 'bool':
            if len(b) != 1:
                raise Soft('boolean length')
            return b != b'\0'
        if k in ('int', 'enum'):
            return int.from_bytes(b, 'big', signed=True)
        if k == 'bits':
            if not b or b[0] > 7:
                raise Bad('bit string')
            if b[0] and len(b) == 1:
                raise Soft('unused bits of nothing')
            s = ''.join('{:08b}'.format(x) for x in b[1:])
            return s[:len(s) - b[0]] if b[0] else s
        if k == 'octets':
            return b
        if k == 'null':
            if b:
                raise Bad('null with content')
            return None
        if k == 'oid':
            return dec_oid(b)
        try:
            return b.decode(TEXT[k][0])
        except UnicodeDecodeError:
            raise Bad('text')


def dec_oid(b):
    out = []
    x = 0
    for c in b:
        x = (x << 7) | (c & 0x7f)
        if not c & 0x80:
            out.append(x)
            x = 0
    if not out or b[-1] & 0x80:
        raise Bad('oid')
    f = out[0]
    if f < 40:
        head = (0, f)
    elif f < 80:
        head = (1, f - 40)
    else:
        head = (2, f - 80)
    return head + tuple(out[1:])


class Bad(Exception):
    """not an encoding of the type"""


class Soft(Bad):
    """not an encoding of the type, but one that the codec library (not this
    package) is known to read leniently; nothing is claimed about these"""


class T(object):
    """one TLV; the content of a constructed one is parsed when looked at"""
    __slots__ = ('cls', 'con', 'num', 'body', '_kids', 'raw', 'depth')

    @property
    def kids(self):
        if self._kids is None and self.con:
            out = []
            j = 0
            while j < len(self.body):
                k, j = parse(self.body, j, self.depth + 1)
                out.append(k)
            self._kids = out
        return self._kids


def read_tag(d, i):
    if i >= len(d):
        raise Bad('underrun')
    b = d[i]
    i += 1
    cls, con, num = b >> 6, bool(b & 0x20), b & 0x1f
    if num == 31:
        num = 0
        while True:
            if i >= len(d):
                raise Bad('underrun')
            num = (num << 7) | (d[i] & 0x7f)
            i += 1
            if not d[i - 1] & 0x80:
                break
    return cls, con, num, i


def parse(d, i, depth=0):
    """parse one TLV at i; returns (T, end)"""
    if depth > 200:
        raise Bad('too deep')
    start = i
    t = T()
    t._kids = None
    t.depth = depth
    t.cls, t.con, t.num, i = read_tag(d, i)
    if i >= len(d):
        raise Bad('underrun')
    l = d[i]
    i += 1
    if l == 0x80:
        if not t.con:
            raise Bad('indefinite primitive')
        t._kids = []
        while True:
            if d[i:i + 2] == b'\0\0':
                i += 2
                break
            k, i = parse(d, i, depth + 1)
            t._kids.append(k)
        t.body = None
        t.raw = d[start:i]
        return t, i
    if l & 0x80:
        m = l & 0x7f
        if i + m > len(d):
            raise Bad('underrun')
        l = int.from_bytes(d[i:i + m], 'big')
        i += m
    if i + l > len(d):
        raise Bad('underrun')
    t.body = d[i:i + l]
    t.raw = d[start:i + l]
    return t, i + l


# -------------------------------------------------------------- constraints

def size_of(k, v):
    return len(v)


def cval(x):
    """decode a 'values' item"""
    if isinstance(x, str) and x.startswith('oid:'):
        return tuple(int(p) for p in x[4:].split('.'))
    if isinstance(x, str) and x.startswith('hex:'):
        return bytes.fromhex(x[4:])
    return x


def ok(c, k, v):
    if not c:
        return True
    op = c[0]
    if op == 'and':
        return all(ok(x, k, v) for x in c[1:])
    if op == 'or':
        return any(ok(x, k, v) for x in c[1:])
    if op == 'not':
        return not any(ok(x, k, v) for x in c[1:])
    if op == 'range':
        return (c[1] == 'MIN' or c[1] <= v) and (c[2] == 'MAX' or v <= c[2])
    if op == 'size':
        return (c[1] == 'MIN' or c[1] <= len(v)) and (c[2] == 'MAX' or len(v) <= c[2])
    if op == 'values':
        return v in [cval(x) for x in c[1:]]
    if op == 'alphabet':
        return all(ch in c[1:] for ch in v)
    if op == 'with':
        # WITH COMPONENTS on an abstract SEQUENCE/SET value
        for name, x in c[1:]:
            if x[0] == 'present' and name not in v:
                return False
            if x[0] == 'absent' and name in v:
                return False
        return True
    raise ValueError(op)


def numbers(c, ops):
    out = []
    if c:
        if c[0] in ('and', 'or', 'not'):
            for x in c[1:]:
                out += numbers(x, ops)
        elif c[0] in ops:
            out += [x for x in c[1:] if isinstance(x, int)]
    return out


def literals(c):
    out = []
    if c:
        if c[0] in ('and', 'or', 'not'):
            for x in c[1:]:
                out += literals(x)
        elif c[0] == 'values':
            out += [cval(x) for x in c[1:]]
    return out


def alphabet(c):
    if c:
        if c[0] in ('and', 'or'):
            for x in c[1:]:
                a = alphabet(x)
                if a:
                    return a
        if c[0] == 'alphabet':
            return c[1:]
    return None


INTS = [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536,
        2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, -2 ** 63, 2 ** 160 + 12345, 3, 4, 5, 10, 16, 17, 64, 100, -2, -255, -2 ** 31, -2 ** 31 - 1, 2 ** 2048 + 7]
for _n in list(range(1, 10)) + [16, 19, 20, 21, 32, 33, 64, 127, 128, 256]:
    # both ends of what n octets hold
    INTS += [x for x in (2 ** (8 * _n - 1) - 1, 2 ** (8 * _n - 1), -2 ** (8 * _n - 1), -2 ** (8 * _n - 1) - 1,
                         2 ** (8 * _n) - 1, 2 ** (8 * _n)) if x not in INTS]
SIZES = [0, 1, 2, 3, 7, 8, 20, 65, 130, 300]
BIG = {'octets': [5000, 66000]}
LATIN = ''.join(chr(x) for x in range(1, 256))
ALPHA = {
    'numeric': '0123456789 ',
    'printable': "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?",
    'utf8': u'abcXYZ09 \xe9\u0416\u4e2d\U0001f600\x01\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff\u0301\u202e-_@"',
    'bmp': u'abcXYZ09 \xe9\u0416\u4e2d\x01\x7f\x80\u07ff\u0800\uffff\ud7ff\u0301-_@"',
    'universal': u'abcXYZ09 \xe9\u0416\u4e2d\U0001f600\x01\x7f\x80\uffff\U00010000\U0010ffff-_@"',
    'teletex': LATIN, 'videotex': LATIN, 'ia5': ''.join(chr(x) for x in range(128)), 'graphic': LATIN,
    'visible': ''.join(chr(x) for x in range(32, 127)), 'general': LATIN, 'objdesc': LATIN,
}
OIDS = [(1, 2, 3), (2, 5, 29, 15), (0, 9, 2342), (1, 3, 6, 1, 4, 1, 99999, 1), (2, 999, 128, 16384, 2 ** 31),
        (1, 2, 840, 113549, 1, 1, 11), (2, 0), (1, 39, 127, 128), (2, 47, 1)]
ANYS = ['0500', '040100', '30060201050c0161', '0c03616263', '0101ff', '020140', '310206 00'.replace(' ', ''),
        '300430020500', '130548656c6c6f', '0603550403', '03020780']
ANYS = [x for x in ANYS if x != '31020600']
UTC = ['990101000000Z', '491231235959Z', '500101000000Z', '200229120000Z']
GT = ['19990101000000Z', '20500101000000Z', '20200229120000Z', '99991231235959Z', '20200101000000.5Z',
      '19500630235960.12Z', '00010101000000Z']


class Empty(Exception):
    pass


class Gen(object):
    """Value generator over spec nodes.

    open_types: produce typed contents (Open) for registered identifiers.
    """

    def __init__(self, spec, rng, open_types=False):
        self.spec = spec
        self.rng = rng
        self.open = open_types
        self.ref = Ref(spec)
        self._min = {}

    # ---- leaves
    def pool(self, nid):
        """all interesting conforming leaf values, deterministic order"""
        cache = self.spec.__dict__.setdefault('_pools', {})
        if nid not in cache:
            cache[nid] = self._pool(nid)
        return cache[nid]

    def _pool(self, nid):
        n = self.spec.nodes[nid]
        k, c = n['k'], n.get('c')
        if k == 'bool':
            out = [True, False]
        elif k in ('int', 'enum'):
            out = list(n.get('nv', {}).values())
            for x in numbers(c, ('range',)):
                out += [x, x + 1, x - 1]
            out += [x for x in literals(c) if isinstance(x, int)]
            if k == 'int':
                out += INTS
            elif not out:
                out = [0, 1]
        elif k == 'null':
            out = [None]
        elif k == 'oid':
            out = [x for x in literals(c) if isinstance(x, tuple)] + OIDS
        elif k == 'any':
            return [bytes.fromhex(x) for x in ANYS]
        elif k == 'utctime':
            out = list(UTC)
        elif k == 'gtime':
            out = list(GT)
        elif k == 'bits':
            out = [x for x in literals(c) if isinstance(x, str)]
            nv = n.get('nv')
            if nv:
                m = max(nv.values()) + 1
                for b in sorted(set(nv.values())):
                    out.append('0' * b + '1')
                out.append('1' * m)
                # named bits: no trailing zero bits in these
                sizes = [s for s in numbers(c, ('size',))]
                out += ['1' * s for s in sizes] + ['']
            else:
                sizes = numbers(c, ('size',)) + SIZES
                out += ['10110' * (s // 5) + '11010'[:s % 5] for s in sizes]
        else:
            sizes = []
            for s in numbers(c, ('size',)):
                sizes += [s, s + 1, max(0, s - 1)]
            sizes = [s for s in dict.fromkeys(sizes + SIZES + BIG.get(k, [5000])) if s <= 70000]
            out = [x for x in literals(c) if isinstance(x, (str, bytes))]
            if k == 'octets':
                out += [bytes((i * 37 + s + 1) & 0xff for i in range(s)) for s in sizes]
            else:
                a = alphabet(c) or ALPHA[k]
                out += [''.join(a[(i + s) % len(a)] for i in range(s)) for s in sizes]
                # every character at least once
                top = max([s for s in sizes if ok(c, k, a[0] * s)] or [0])
                if top:
                    out += [''.join(a[(i + j) % len(a)] for j in range(top)) for i in range(0, len(a), top)]
        res = []
        for v in out:
            if ok(c, k, v) and not any(type(v) == type(r) and v == r for r in res):
                res.append(v)
        if not res:
            raise ValueError('no conforming value for %r' % n)
        return res

    def leaf_min(self, nid):
        n = self.spec.nodes[nid]
        p = self.pool(nid)
        if n['k'] in ('octets',) or n['k'] in TEXT:
            q = [x for x in p if len(x) >= 1]
            if q:
                return min(q, key=lambda x: (abs(len(x) - 3), len(x)))
        if n['k'] == 'bits':
            q = [x for x in p if x]
            if q:
                return q[0]
        return p[0]

    def is_leaf(self, nid):
        return self.spec.nodes[nid]['k'] not in CONSTRUCTED

    def seq_sizes(self, n):
        c = n.get('c')
        s = numbers(c, ('size',))
        cand = sorted(set([x for x in s if x <= 40] + [0, 1, 2, 3]))
        return [x for x in cand if ok(c, n['k'], [0] * x)] or [next(x for x in range(1, 5000) if ok(c, n['k'], [0] * x))]

    # ---- constructed
    def minimal(self, nid, depth=0):
        if nid in self._min:
            return self._min[nid]
        n = self.spec.nodes[nid]
        k = n['k']
        if k not in CONSTRUCTED:
            v = self.leaf_min(nid)
        elif k == 'choice':
            f = n['f'][0]
            v = (f['n'], self.minimal(f['t'], depth + 1))
        elif k in ('seqof', 'setof'):
            s = [x for x in self.seq_sizes(n) if x >= 1]
            s = s[0] if s else 0
            v = [self.minimal(n['e'], depth + 1) for _ in range(s)] if n['e'] else []
        else:
            v = {}
            for f in n['f']:
                if f['q'] == 'm':
                    v[f['n']] = self.minimal(f['t'], depth + 1)
            if not ok(n.get('c'), k, v):
                v = self.repair(n, v)
        self._min[nid] = v
        return v

    def empty(self, nid, v):
        """a constructed value without content: the codec leaves it out where
        it is OPTIONAL (its omitEmptyOptionals), so it is no distinct value there"""
        n = self.spec.nodes[nid]
        if n['k'] == 'choice':
            return self.empty(self.ref.field(n, v[0])['t'], v[1])
        if n['k'] in ('seqof', 'setof'):
            return not v or any(self.empty(n['e'], x) for x in v)
        return n['k'] in ('seq', 'set') and not self.ref.norm(nid, v)

    def repair(self, n, v):
        """add optional fields until the type's own constraint holds"""
        for f in n['f']:
            if f['n'] not in v:
                x = dict(v)
                x[f['n']] = self.filled(f)
                if ok(n.get('c'), n['k'], x):
                    return x
        x = dict((f['n'], v.get(f['n'], self.filled(f))) for f in n['f'])
        if ok(n.get('c'), n['k'], x):
            return x
        raise ValueError('cannot satisfy %r' % n.get('c'))

    def filled(self, f):
        """a small value of an optional/default field that is not a mere
        absence: non-empty, and different from the default"""
        v = self.minimal(f['t'])
        if f['q'] == 'd' and not self.nondefault(f, v) or f['q'] != 'm' and self.empty(f['t'], v):
            for v in self.child(f['t'], 0, 20):
                if not (f['q'] == 'd' and not self.nondefault(f, v) or self.empty(f['t'], v)):
                    return v
            raise Empty(f['n'])
        return v

    def nondefault(self, f, v):
        """is v different from f's default"""
        return f['q'] != 'd' or self.ref.norm(f['t'], v) != self.ref.norm(f['t'], self.ref.default(f))

    def samples(self, nid, depth, leafcap=200):
        """Coverage-driven list of conforming values: every optional field on
        its own and all together, every alternative, every list size at the
        limits, every pool value of every leaf; named constructed types below
        the first level are entered `depth` levels deep."""
        n = self.spec.nodes[nid]
        k = n['k']
        if k not in CONSTRUCTED:
            return self.pool(nid)[:leafcap]
        out = []
        if k == 'choice':
            for f in n['f']:
                for v in self.child(f['t'], depth, leafcap):
                    out.append((f['n'], v))
            return out
        if k in ('seqof', 'setof'):
            m = self.minimal(n['e'])
            sizes = self.seq_sizes(n)
            kids = list(self.child(n['e'], depth, leafcap))
            if ok(n.get('c'), k, [0] * 150):
                out.append([m] * 150)
            for s in sizes:
                out.append([kids[i % len(kids)] if s <= 3 else m for i in range(s)])
            base = max(1, min([x for x in sizes if x >= 1] or [1]))
            if base in sizes:
                for v in kids:
                    out.append([v] + [m] * (base - 1))
            return out
        base = self.minimal(nid)
        out.append(base)
        full = dict(base)
        for f in n['f']:
            if f['q'] != 'm':
                try:
                    full[f['n']] = self.filled(f)
                except Empty:
                    pass
        full = dict((f['n'], full[f['n']]) for f in n['f'] if f['n'] in full)
        if full != base and ok(n.get('c'), k, full):
            out.append(full)
        for f in n['f']:
            for v in self.child(f['t'], depth, leafcap):
                if f['q'] == 'o' and self.empty(f['t'], v):
                    continue
                x = dict(base)
                x[f['n']] = v
                if not ok(n.get('c'), k, x):
                    x = {f['n']: v}
                    for g in n['f']:
                        if g['q'] == 'm' and g is not f:
                            x[g['n']] = self.minimal(g['t'])
                    if not ok(n.get('c'), k, x):
                        continue
                out.append(x)
        return out

    def child(self, nid, depth, leafcap):
        n = self.spec.nodes[nid]
        if n['k'] not in CONSTRUCTED:
            return self.pool(nid)[:leafcap]
        if self.is_named(nid):
            if depth <= 0:
                r = [self.minimal(nid)]
                x = self.maximal(nid, 1)
                if x != r[0]:
                    r.append(x)
                return r
            return self.samples(nid, depth - 1, leafcap=6)
        return self.samples(nid, depth, leafcap)

    def is_named(self, nid):
        """structurally equal (outer tags aside) to a published type"""
        if not hasattr(self.spec, 'named_bodies'):
            s = set()
            for t in self.spec.named:
                s.add(self.bodykey(t))
            self.spec.named_bodies = s
        return self.bodykey(nid) in self.spec.named_bodies

    def bodykey(self, nid):
        n = self.spec.nodes[nid]
        if 'bk' not in n:
            n['bk'] = json.dumps([n['k'], n.get('c'), n.get('e'), [(f['n'], f['t'], f['q']) for f in n.get('f', ())]])
        return n['bk']

    def maximal(self, nid, depth):
        n = self.spec.nodes[nid]
        k = n['k']
        if k not in CONSTRUCTED or depth < 0:
            return self.minimal(nid)
        if k == 'choice':
            f = n['f'][-1]
            return (f['n'], self.maximal(f['t'], depth - 1))
        if k in ('seqof', 'setof'):
            return [self.maximal(n['e'], depth - 1)] if 1 in self.seq_sizes(n) else self.minimal(nid)
        v = {}
        for f in n['f']:
            x = self.maximal(f['t'], depth - 1)
            if f['q'] != 'm' and self.empty(f['t'], x):
                continue
            v[f['n']] = x
        return v if ok(n.get('c'), k, v) else self.minimal(nid)

    # ---- random
    def random(self, nid, budget=40):
        self.left = budget
        return self._rand(nid, 0)

    def _rand(self, nid, depth):
        rng = self.rng
        n = self.spec.nodes[nid]
        k = n['k']
        self.left -= 1
        if k not in CONSTRUCTED:
            return self.rand_leaf(nid)
        poor = self.left <= 0 or depth > 12
        if k == 'choice':
            fs = n['f']
            f = fs[0] if poor and depth > 16 else rng.choice(fs)
            return (f['n'], self._rand(f['t'], depth + 1))
        if k in ('seqof', 'setof'):
            sizes = self.seq_sizes(n)
            if poor:
                s = sizes[0]
            else:
                s = rng.choice(sizes)
                if s > 4:
                    s = rng.choice(sizes)
                if rng.random() < 0.03 and self.left > 10:
                    more = [x for x in (5, 6, 8, 12) if ok(n.get('c'), k, [0] * x)]
                    s = rng.choice(more or [s])
                if MINED and rng.random() < 0.04:
                    s2 = rng.choice(MINED)
                    if isinstance(s2, int) and 1 < s2 < 600 and ok(n.get('c'), k, [0] * (s2 + 1)):
                        m = self.minimal(n['e'])
                        return [m] * (s2 + 1)
            out = [self._rand(n['e'], depth + 1) for _ in range(s)]
            if s > 1 and rng.random() < 0.12:
                # the same member twice
                out[-1] = out[rng.randrange(s - 1)]
            return out
        out = {}
        for f in n['f']:
            if f['q'] == 'm' or (not poor and rng.random() < 0.5):
                if 'ot' in f and self.open:
                    continue
                v = self._rand(f['t'], depth + 1)
                if f['q'] == 'o' and self.empty(f['t'], v):
                    continue
                out[f['n']] = v
        if self.open:
            for f in n['f']:
                if 'ot' in f and (f['q'] == 'm' or (not poor and rng.random() < 0.7)):
                    self.fill_open(n, f, out, depth)
            out = dict((f['n'], out[f['n']]) for f in n['f'] if f['n'] in out)
        if not ok(n.get('c'), k, out):
            return self.minimal(nid)
        return out

    def fill_open(self, n, f, out, depth):
        """choose a registered identifier and typed content"""
        rng = self.rng
        gov, mp = f['ot']
        m = self.spec.maps.get(mp) or {}
        poor = self.left <= 0 or depth > 10
        if m and rng.random() < 0.8:
            key = rng.choice(sorted(m))
            out[gov] = self.keyval(n, gov, key)
            ent = m[key]['t']
            mk = (lambda: Open(ent, self.minimal(ent))) if poor else (lambda: Open(ent, self._rand(ent, depth + 1)))
        else:
            out[gov] = self.unregistered(n, gov, m)
            mk = lambda: rng.choice([bytes.fromhex(x) for x in ANYS])
        fn = self.spec.nodes[f['t']]
        if fn['k'] in ('seqof', 'setof'):
            s = rng.choice([x for x in self.seq_sizes(fn) if x <= 2] or self.seq_sizes(fn))
            out[f['n']] = [mk() for _ in range(s)]
        else:
            out[f['n']] = mk()

    def keyval(self, n, gov, key):
        g = self.ref.field(n, gov)
        if self.spec.nodes[g['t']]['k'] in ('int', 'enum'):
            return int(key)
        return tuple(int(x) for x in key.split('.'))

    def unregistered(self, n, gov, m):
        g = self.ref.field(n, gov)
        if self.spec.nodes[g['t']]['k'] in ('int', 'enum'):
            return next(x for x in (200, 201, 199, 255) if str(x) not in m)
        return (1, 3, 6, 1, 4, 1, 99999, self.rng.randrange(1, 500))

    def mined(self, k):
        """a value about a constant the code under test compares with"""
        rng = self.rng
        x = rng.choice(MINED)
        if k == 'int':
            return x + rng.choice([-1, 0, 0, 1]) if isinstance(x, int) else None
        if k == 'oid':
            if isinstance(x, str) and '.' in x:
                try:
                    o = tuple(int(y) for y in x.split('.'))
                except ValueError:
                    return None
                return o + rng.choice([(), (1,)]) if len(o) > 1 and o[0] < 3 and o[1] < 40 else None
            return (1, 2, abs(x)) if isinstance(x, int) else None
        if isinstance(x, int):
            if not 0 <= x < 3000:
                return None
            n = max(0, x + rng.choice([-1, 0, 0, 0, 1, 1]))
            if rng.random() < 0.2 and n < 1100:
                n *= 2
            x = ''.join(rng.choice('abcXYZ019 ') for _ in range(n)) if k != 'bits' else ''.join(rng.choice('01') for _ in range(n))
        elif k != 'bits':
            if isinstance(x, bytes):
                x = x.decode('latin-1')
            x = rng.choice([x, x + '7', 'A' + x, 'A' + x + '7'])
        if k == 'bits':
            return x if isinstance(x, str) and not x.strip('01') else None
        if k == 'octets':
            x = x.encode('utf-8')
            if x and rng.random() < 0.4:
                # what is at the ends
                e = rng.choice([b'\0', b'\0\0', b' ', b'\n', b'\xff', b'=', b'\0' * (len(x) // 2)])
                x = rng.choice([x[:len(x) - len(e)] + e, e + x[len(e):]])
            return x
        if x and rng.random() < 0.2 and k in TEXT and k not in ('gtime', 'utctime'):
            x = rng.choice([x[:-1] + ' ', ' ' + x[1:]])
        if k in TEXT and k not in ('gtime', 'utctime'):
            return x if all(ch in ALPHA[k] for ch in x) else None

    def near(self, nid, v):
        """another value that differs little"""
        rng = self.rng
        n = self.spec.nodes[nid]
        k, c = n['k'], n.get('c')
        out = []
        if k == 'int':
            out = [v + 1, v - 1, -v, v ^ (1 << rng.randrange(70)), v * 256, v >> 8]
        elif k == 'bool':
            out = [not v]
        elif k == 'oid':
            out = [v[:-1] + (v[-1] + 1,), v + (0,), v + (1,), v[:-1]] if len(v) > 2 else [v + (0,), v + (1,)]
        elif k == 'octets':
            out = [v + b'\0', v + b'\n', v + b' ', v[:-1], v[1:], v.swapcase(), v[::-1], v[:-1] + bytes([v[-1] ^ 1]) if v else b'a']
        elif k == 'bits':
            out = [v + '1', v[:-1], '1' + v] + ([] if n.get('nv') else [v + '0', '0' + v])
            if n.get('nv'):
                out = [x.rstrip('0') for x in out]
        elif k in ('utctime', 'gtime'):
            i = len(v) - 3
            out = [v[:i] + '%02d' % rng.randrange(60) + v[i + 2:], v[:i - 2] + '%02d' % rng.randrange(60) + v[i:]] if v[-1:] == 'Z' and v[:-1].isdigit() else []
        elif k in TEXT:
            a = alphabet(c) or ALPHA[k]
            out = [v + ' ', v + v[-1:], v[:-1], v[1:], v.swapcase(), v.upper(), v[::-1], v[:-1] + rng.choice(a), ' ' + v]
            out = [x for x in out if all(ch in a for ch in x)]
        out = [x for x in out if x != v and ok(c, k, x)]
        return rng.choice(out) if out else self.rand_leaf(nid)

    def rand_leaf(self, nid):
        rng = self.rng
        n = self.spec.nodes[nid]
        k, c = n['k'], n.get('c')
        p = self.pool(nid)
        if MINED and rng.random() < 0.15:
            v = self.mined(k)
            if v is not None and ok(c, k, v):
                return v
        if rng.random() < 0.5 or k in ('bool', 'null', 'enum', 'any'):
            v = rng.choice(p)
            if hasattr(v, '__len__') and len(v) > 2000:
                v = rng.choice(p)
            return v
        for _ in range(8):
            if k == 'int':
                v = rng.getrandbits(rng.choice([4, 8, 16, 31, 64, 8 * rng.randrange(1, 40)])) * rng.choice([1, 1, 1, -1])
            elif k == 'oid':
                v = (rng.choice([0, 1, 2]), rng.randrange(0, 40)) + tuple(
                    rng.getrandbits(rng.choice([3, 7, 8, 14, 20])) for _ in range(rng.randrange(0, 8)))
            elif k == 'utctime':
                v = '%02d%02d%02d%02d%02d%02dZ' % (rng.randrange(100), rng.randrange(1, 13), rng.randrange(1, 29),
                                                   rng.randrange(24), rng.randrange(60), rng.randrange(60))
            elif k == 'gtime':
                v = '%04d%02d%02d%02d%02d%02dZ' % (rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29),
                                                   rng.randrange(24), rng.randrange(60), rng.randrange(60))
            elif k == 'bits':
                v = ''.join(rng.choice('01') for _ in range(rng.randrange(0, 40)))
                if n.get('nv'):
                    v = v.rstrip('0')
            elif k == 'octets':
                v = bytes(rng.getrandbits(8) for _ in range(rng.randrange(0, 40)))
            else:
                a = alphabet(c) or ALPHA[k]
                v = ''.join(rng.choice(a) for _ in range(rng.randrange(0, 40)))
                if len(v) > 2 and ' ' in a and rng.random() < 0.2:
                    v = rng.choice([' ' + v[1:], v[:-1] + ' ', v[:1] + '  ' + v[3:], ' ' * len(v)])
            if ok(c, k, v):
                return v
        return rng.choice(p)
