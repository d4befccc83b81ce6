"""Any input gets an answer, and the work grows in step with its size."""
import base64
import contextlib
import gc
import io
import os
import random
import runpy
import sys
import time

import harness
import mutate
import ref
from p11 import TOOLS, path
from work import B, R, S, bridge, der_decoder, der_encoder, ber_decoder, hot, module, rep, short, spread, subjects

RULE = ('every published type is given random octets, random and very deep TLV trees, absurd lengths, tags and numbers, '
        'mutated and truncated messages; every type with lists is given lists of n and of 4n elements; the PEM reader '
        'is given every shape of text from unterminated blocks to megabytes, the dump tools messages of n and of 4n '
        'parts and hostile text. A monitor counts the steps the interpreter executes (function entries and jumps): no '
        'operation may run past its CPU limit, 4n may cost at most 5.5 times what n costs, each line of text is asked for '
        'once, the interpreter survives, and repeating an operation leaves no objects behind. Non-trivial: the octets '
        'or the text are not empty; distinct by type or tool and input.')
MIN = 8000
ASSUMPTIONS = ['the codec library recurses once per level of nesting: RecursionError is an answer',
               'printing or converting numbers of thousands of digits is the interpreter\'s affair and not tried']
LIMIT = 60          # CPU seconds; the longest legitimate operation here takes under one
FACTOR = 5.5        # allowed for four times the input; the measured factor is 4.2 at most
COSTLY = 9          # the same for processor time, which is noisy
TOOL = 3


class Meter(object):
    """counts the steps the interpreter takes while it is on"""
    def __init__(self):
        self.steps = 0

    def tick(self, *a):
        self.steps += 1

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'verif')
        m.register_callback(TOOL, m.events.PY_START, self.tick)
        m.register_callback(TOOL, m.events.JUMP, self.tick)
        m.set_events(TOOL, m.events.PY_START | m.events.JUMP)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)


def steps(f, *a):
    with Meter() as m, harness.cpu_limit(LIMIT):
        out = f(*a)
    return m.steps, out


# ------------------------------------------------------------------ octets
def der_len(n):
    return ref.enc_len(n)


def tree(rng, depth, width=3):
    """some TLVs"""
    if depth == 0 or rng.random() < 0.2:
        t = rng.choice([1, 2, 3, 4, 5, 6, 10, 12, 19, 22, 23, 24, 0x80, 0x81, 0x82, 0x9f])
        body = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 1, 2, 5, 20])))
        head = bytes([t]) + (bytes([rng.randrange(1, 127)]) if t & 31 == 31 else b'')
        return head + der_len(len(body)) + body
    body = b''.join(tree(rng, depth - 1, width) for _ in range(rng.randrange(0, width + 1)))
    t = rng.choice([0x30, 0x30, 0x31, 0xa0, 0xa1, 0xa2, 0x24, 0x60])
    if rng.random() < 0.15:
        return bytes([t, 0x80]) + body + (b'\0\0' if rng.random() < 0.7 else b'')
    return bytes([t]) + der_len(len(body)) + body


def nest(tags, depth, indef):
    body = b''
    if indef:
        return bytes(tags[i % len(tags)] if j == 0 else 0x80 for i in range(depth) for j in (0, 1))
    for i in range(depth):
        body = bytes([tags[(depth - i) % len(tags)]]) + der_len(len(body)) + body
    return body


def hostile(rng, lead):
    """octets nobody would send in good faith; lead: the type's outer tag"""
    r = rng.randrange(12)
    if r == 0:
        return bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 300)))
    if r == 1:
        return lead + bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 100)))
    if r == 2:
        return tree(rng, 6)
    if r == 3:
        body = b''.join(tree(rng, 3) for _ in range(6))
        return lead + der_len(len(body)) + body
    if r == 4:
        return nest([lead[0] | 0x20], rng.choice([20, 300, 3000]), rng.random() < 0.5)
    if r == 5:
        return nest([lead[0] | 0x20, 0x30, 0xa0, 0x31][:rng.randrange(1, 5)], rng.choice([20, 300, 3000]), rng.random() < 0.5)
    if r == 6:
        return lead + rng.choice([b'\x84\x7f\xff\xff\xff', b'\x88' + b'\x7f' * 8, b'\xff' * 200, b'\xfe' + b'\xff' * 126, b'\x80', b'\x81', b'\x84']) + tree(rng, 2)
    if r == 7:
        return bytes([rng.choice([0x1f, 0x3f, 0xbf, 0xff])]) + b'\xff' * rng.choice([1, 10, 1000]) + b'\x7f\x02\x05\x00'
    if r == 8:
        return lead + der_len(2000) + b'\x06\x81' + b'\xff' * 1998
    if r == 9:
        return (lead + b'\x80') * rng.choice([1, 5, 400]) + b'\0\0' * rng.choice([0, 1, 400])
    if r == 10:
        return b'\0' * rng.choice([1, 2, 500]) + lead + b'\0'
    body = tree(rng, 1) * rng.choice([10, 400])
    return lead + der_len(len(body)) + body


def decode(data, spec, opened):
    try:
        return ber_decoder.decode(data, asn1Spec=spec, decodeOpenTypes=opened)
    except harness.Hang:
        raise
    except MemoryError:
        raise
    except Exception as e:
        return e


def hard(rec, item, rng):
    m, k, nid, n = item
    T = getattr(module(m), k)
    where = '%s.%s' % (m, k)
    g = ref.Gen(S, rng)
    lead = R.der(nid, g.minimal(nid))[:1] or b'\x30'
    spec = T()
    for i in range(n):
        if rng.random() < 0.3:
            data = R.der(nid, g.random(nid, 15))
            ms = list(mutate.mutants(data, rng, 3)) if len(data) < 1500 else []
            data = ms[0][1] if ms and rng.random() < 0.7 else data[:rng.randrange(len(data) + 1)]
        else:
            data = hostile(rng, lead)
        if not data:
            continue
        try:
            with harness.cpu_limit(LIMIT):
                out = decode(data, spec, rng.random() < 0.5)
                if isinstance(out, tuple) and len(data) < 1000:
                    str(out[0])
        except harness.Hang:
            rec.bad('hang:' + where, '%s: no answer on %s' % (where, data.hex()[:200]), der=data.hex())
            continue
        except MemoryError:
            rec.bad('memory:' + where, '%s: out of memory on %s' % (where, data.hex()[:200]), der=data.hex())
            continue
        except Exception:
            pass            # an answer
        rec.see((nid, data), octets=len(data), **{'answer:' + (type(out).__name__ if isinstance(out, Exception) else 'value'): 1})


# ------------------------------------------------------------------- lists
def lists(nid):
    """the list-valued places one level down"""
    n = S.nodes[nid]
    if n['k'] in ('seqof', 'setof'):
        yield None, nid
    elif n['k'] in ('seq', 'set'):
        for f in n['f']:
            if S.nodes[f['t']]['k'] in ('seqof', 'setof'):
                yield f['n'], f['t']
    elif n['k'] == 'choice':
        for f in n['f']:
            if S.nodes[f['t']]['k'] in ('seqof', 'setof'):
                yield (f['n'],), f['t']


def grown(g, nid, at, lid, size, elems):
    x = [elems[i % len(elems)] for i in range(size)]
    if at is None:
        v = x
    elif isinstance(at, tuple):
        v = (at[0], x)
    else:
        v = dict(g.filled_base)
        v[at] = x
    return v if R.conforms(nid, v) else None


def scaling(rec, item, rng):
    (m, k, nid), at, lid, small = item
    T = getattr(module(m), k)
    where = '%s.%s%s' % (m, k, '' if at is None else '.' + (at if isinstance(at, str) else at[0]))
    g = ref.Gen(S, rng)
    en = S.nodes[lid]['e']
    elems = [g.minimal(en)] + [g.random(en, 3) for _ in range(3)]
    elems = [e for e in elems if len(R.der(en, e)) < 400][:3]
    if not elems:
        return
    if isinstance(at, str):
        g.filled_base = g.minimal(nid)
        if g.filled_base is None:
            return
    vs = [grown(g, nid, at, lid, s, elems) for s in (small, small * 4)]
    if None in vs:
        rec.count('list is limited')
        return
    cost = {}
    for i, v in enumerate(vs):
        data = R.der(nid, v)
        spec = T()
        got = {}

        def reading():
            got['v'] = der_decoder.decode(data, asn1Spec=spec)[0]

        def opening():
            got['o'] = der_decoder.decode(data, asn1Spec=spec, decodeOpenTypes=True)[0]

        def writing():
            got['d'] = der_encoder.encode(got['v'])

        def building():
            got['b'] = B.build(T(), nid, v)

        def showing():
            got['v'].prettyPrint()

        def copying():
            got['v'].clone(cloneValueFlag=True)

        def walking():
            x = got['v'] if at is None else got['v'][at if isinstance(at, str) else at[0]]
            for y in x:
                pass
            for y in range(len(v if at is None else v[at] if isinstance(at, str) else v[1])):
                x[y]

        def comparing():
            got['v'] == got['o']
        for f in (reading, opening, writing, building, showing, copying, walking, comparing):
            try:
                c, _ = steps(f)
            except harness.Hang:
                rec.bad('hang:%s:%s' % (f.__name__, where), '%s of a %s with %d elements does not end' % (f.__name__, where, len(v)))
                return
            except Exception as e:
                rec.count('%s refused' % f.__name__)
                continue
            cost[f.__name__, i] = c
            rec.see((nid, at, f.__name__, i), steps=c)
    for f in set(a for a, i in cost):
        if (f, 0) in cost and (f, 1) in cost:
            ratio = cost[f, 1] / max(1.0, cost[f, 0])
            rec.count('%s: ratio up to %d' % (f, int(ratio) + 1))
            if ratio > FACTOR:
                rec.bad('steep:%s:%s' % (f, where), '%s a %s costs %d steps for %d elements and %d for %d' % (
                    f, where, cost[f, 0], small, cost[f, 1], small * 4), costs=cost)
    rec.sample(type=where, costs=cost)


# --------------------------------------------------------------------- text
class Counting(io.StringIO):
    """a file that knows how often it was asked"""
    def __init__(self, text):
        io.StringIO.__init__(self, text)
        self.asked = 0

    def readline(self, *a):
        self.asked += 1
        return io.StringIO.readline(self, *a)

    def __next__(self):
        self.asked += 1
        return io.StringIO.__next__(self)


START, STOP = '-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'


def shape(what, n, rng):
    """text of about n lines"""
    line = base64.b64encode(bytes(rng.getrandbits(8) for _ in range(48))).decode()
    if what == 'one block':
        return [START] + [line] * n + [STOP]
    if what == 'unterminated':
        return [START] + [line] * n
    if what == 'no start':
        return [line] * n + [STOP]
    if what == 'starts':
        return [START] * n
    if what == 'stops':
        return [STOP] * n
    if what == 'near misses':
        return [START + '-', STOP[1:]] * (n // 2)
    if what == 'empty blocks':
        return [START, STOP] * (n // 2)
    if what == 'small blocks':
        return [START, line, STOP] * (n // 3)
    if what == 'blank':
        return [''] * n
    if what == 'wide':
        return [START, line * n, STOP]
    if what == 'narrow':
        return [START] + ['AAAA'] * n + [STOP]
    if what == 'other blocks':
        return ['-----BEGIN X-----', line, '-----END X-----'] * (n // 3)
    return [''.join(chr(rng.randrange(32, 0x3000)) for _ in range(20)) for _ in range(n)]


SHAPES = ['one block', 'unterminated', 'no start', 'starts', 'stops', 'near misses', 'empty blocks', 'small blocks',
          'blank', 'wide', 'narrow', 'other blocks', 'noise']


def drain(pem, f, markers, most):
    """every block of the file; how many calls that took"""
    calls = 0
    while True:
        calls += 1
        i, data = pem.readPemBlocksFromFile(f, *markers)
        if not data and f.tell() >= f.size:
            return calls
        if calls > most:
            raise harness.Hang('the end of the file is never reached')


def text(rec, item, rng):
    what, n = item
    pem = module('pem')
    markers = [(START, STOP), ('-----BEGIN X-----', '-----END X-----')][:rng.randrange(1, 3)]
    cost = []
    for size in (n, 4 * n):
        t = '\n'.join(shape(what, size, rng)) + rng.choice(['', '\n'])
        lines = t.count('\n') + 1
        for mode in ('blocks', 'one', 'base64'):
            f = Counting(t)
            f.size = len(t)

            def go():
                if mode == 'blocks':
                    drain(pem, f, markers, lines + 2)
                elif mode == 'one':
                    pem.readPemFromFile(f)
                else:
                    pem.readBase64FromFile(f)
            try:
                c, _ = steps(go)
            except harness.Hang as e:
                rec.bad('hang:%s' % mode, 'reading %d lines (%s): %s' % (lines, what, e), text=t[:3000])
                continue
            except Exception:
                rec.count('refused')
                continue
            rec.see((what, size, mode, t[:60]), steps=c, lines=lines, asked=f.asked)
            # each call sees the end of the file at most once
            if mode != 'base64' and f.asked > 2 * lines + 4:
                rec.bad('again:%s' % mode, 'reading %d lines (%s) takes %d line reads' % (lines, what, f.asked), text=t[:3000])
            cost.append((mode, size, c))
    for mode in ('blocks', 'one', 'base64'):
        c = [x for m, s, x in cost if m == mode]
        if len(c) == 2 and c[1] > 100 and c[1] > FACTOR * c[0]:
            rec.bad('steep:%s' % mode, 'reading text (%s): %d steps for %d lines, %d for four times that' % (what, c[0], n, c[1]))


def rivals(rng):
    """lines that make a careless pattern try everything"""
    for c in '-=A+ \t/#:.0_*':
        for tail in ('', '>', '!', '-', '= =', 'x'):
            yield c * rng.choice([40, 70]) + tail
            yield c * 4000 + tail
    for a, b in (('- ', 20), ('-=', 30), ('A=', 30), (' \t', 40), ('AAAA ', 20), ('----- ', 30), ('-----BEGIN', 20), ('BEGIN ', 30), ('a: ', 30)):
        for tail in ('', '>', '!', '----'):
            yield a * b + tail
            yield a * 1500 + tail
    for lead in ('-----BEGIN ', '-----END ', '-----BEGIN CERTIFICATE', '-----END CERTIFICATE', 'Proc-Type: ', 'MIIB'):
        for c in '- A=':
            yield lead + c * 60
            yield lead + c * 3000 + '!'


def patterns(rec, item, rng):
    """such lines in front of a block, in it and after it"""
    pem = module('pem')
    lines = list(rivals(rng))
    rng.shuffle(lines)
    where = item
    for x in lines:
        t = {'before': [x, START, 'QUJD', STOP], 'inside': [START, 'QUJD', x, STOP], 'after': [START, 'QUJD', STOP, x],
             'alone': [x]}[where]
        f = Counting('\n'.join(t) + '\n')
        f.size = len(f.getvalue())
        rec.see((where, x), rival=1)
        try:
            with harness.cpu_limit(8):
                if where == 'alone':
                    pem.readBase64fromText(x)
                else:
                    drain(pem, f, [(START, STOP)], 6)
        except harness.Hang:
            rec.bad('rival:' + where, 'no answer on a line of %d characters %s the block: %s' % (len(x), where, x[:80]), text=f.getvalue()[:3000])
            return
        except Exception:
            rec.count('refused')


def cpu(f):
    t = time.process_time()
    f()
    return time.process_time() - t


def ratio(f, small, large, rec, key, what):
    """time, for what the step counter does not see: copying done inside the
    interpreter.  f(size) is run; several times before anything is said"""
    try:
        with harness.cpu_limit(LIMIT):
            b = cpu(lambda: f(large))
            if b < 0.5:
                return
            a = cpu(lambda: f(small))
            for _ in range(3):
                if b <= COSTLY * a:
                    return
                a, b = max(a, cpu(lambda: f(small))), min(b, cpu(lambda: f(large)))
    except harness.Hang:
        return rec.bad('slow:' + key, '%s: no end' % what)
    except Exception:
        rec.count('refused')
        return
    rec.bad('slow:' + key, '%s: %.2f s of processor time, and %.2f s for four times as much' % (what, a, b))


def bulk(rec, item, rng):
    """megabytes: copying that grows with the square shows as time"""
    what, n = item
    pem = module('pem')
    texts = dict((k, '\n'.join(shape(what, k, rng)) + '\n') for k in (n, 4 * n))

    def go(k):
        f = Counting(texts[k])
        f.size = len(texts[k])
        drain(pem, f, [(START, STOP)], k + 2)

    def base64(k):
        pem.readBase64FromFile(io.StringIO(texts[k].replace('-', '')))
    ratio(go, n, 4 * n, rec, 'text', 'reading %d lines of text (%s)' % (n, what))
    ratio(base64, n, 4 * n, rec, 'base64', 'reading %d lines of base64 (%s)' % (n, what))
    rec.see((what, n, 'bulk'), octets=len(texts[4 * n]))


def weighty(rec, item, rng):
    """long lists, by the clock"""
    (m, k, nid), at, lid, small = item
    T = getattr(module(m), k)
    where = '%s.%s%s' % (m, k, '' if at is None else '.' + (at if isinstance(at, str) else at[0]))
    g = ref.Gen(S, rng)
    en = S.nodes[lid]['e']
    elems = [e for e in [g.minimal(en)] + [g.random(en, 2)] if e is not None and len(R.der(en, e)) < 60][:2]
    if not elems:
        return
    if isinstance(at, str):
        g.filled_base = g.minimal(nid)
        if g.filled_base is None:
            return
    vs = dict((s, grown(g, nid, at, lid, s, elems)) for s in (small, 4 * small))
    if None in vs.values():
        return
    data = dict((s, R.der(nid, v)) for s, v in vs.items())
    got = {}

    def reading(s):
        got[s] = der_decoder.decode(data[s], asn1Spec=T())[0]

    def writing(s):
        der_encoder.encode(got[s])

    def showing(s):
        got[s].prettyPrint()
    for f in (reading, writing, showing):
        ratio(f, small, 4 * small, rec, '%s:%s' % (f.__name__, where), '%s a %s of %d elements' % (f.__name__, where, small))
        rec.see((nid, at, f.__name__, 'weighty'), weighty=1)


# -------------------------------------------------------------------- tools
def run_tool(tool, text):
    argv, stdin, out = sys.argv, sys.stdin, io.StringIO()
    sys.argv, sys.stdin = [path(tool)], io.StringIO(text)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(path(tool), run_name='__main__')
    except SystemExit:
        pass
    except harness.Hang:
        raise
    except Exception:
        return None
    finally:
        sys.argv, sys.stdin = argv, stdin
    return out.getvalue()


def armour(label, data):
    b = base64.b64encode(data).decode()
    body = '\n'.join(b[i:i + 64] for i in range(0, len(b), 64))
    return body + '\n' if label is None else '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, body, label)


def tools(rec, item, rng):
    (tool, kinds), n = item
    g = ref.Gen(S, rng)
    label, m, k = kinds[0]
    nid = S.modules[m]['types'][k]
    many = label is not None and tool != 'pkcs7dump'
    if many:
        data = R.der(nid, g.random(nid, 20))
        run_tool(tool, armour(label, data))       # imports are not counted
        cost = []
        for size in (n, 4 * n):
            try:
                c, out = steps(run_tool, tool, armour(label, data) * size)
            except harness.Hang:
                return rec.bad('hang:' + tool, '%s: no end on %d messages' % (tool, size), der=data.hex())
            rec.see((tool, size, data), steps=c)
            cost.append(c)
        if cost[1] > FACTOR * cost[0]:
            rec.bad('steep:' + tool, '%s: %d steps for %d messages, %d for four times that' % (tool, cost[0], n, cost[1]), der=data.hex())
    lead = R.der(nid, g.minimal(nid))[:1]
    for i in range(6):
        x = hostile(rng, lead)
        r = rng.random()
        t = armour(label, x)
        if r < 0.2:
            t = '\n'.join(shape(rng.choice(SHAPES), 30, rng))
        elif r < 0.3:
            t = t * 3
        elif r < 0.4 and label:
            t = t.replace('-----END', '----END')
        elif r < 0.5:
            data = R.der(nid, g.random(nid, 20))
            t = armour(label, data + x)
        try:
            with harness.cpu_limit(LIMIT):
                run_tool(tool, t)
        except harness.Hang:
            rec.bad('hang:' + tool, '%s: no answer' % tool, text=t)
        except MemoryError:
            rec.bad('memory:' + tool, '%s: out of memory' % tool, text=t)
        rec.see((tool, t), hostile=1)


# ------------------------------------------------------------------ residue
def residue(rec, item, rng):
    """what a repeated operation leaves behind"""
    for m, k, nid in item:
        T = getattr(module(m), k)
        where = '%s.%s' % (m, k)
        g = ref.Gen(S, rng)
        datas = [R.der(nid, g.random(nid, 10)) for _ in range(4)]

        def once(i):
            d = datas[i % 4]
            o = decode(d, T(), True)
            if isinstance(o, tuple):
                try:
                    der_encoder.encode(o[0])
                    str(o[0])
                    hash(o[0])
                except Exception:
                    pass
            decode(d[:-1], T(), False)
            try:
                T()['nothing'] = 1
            except Exception:
                pass
        for i in range(8):
            once(i)
        gc.collect()
        a = len(gc.get_objects())
        for i in range(32):
            once(i)
        gc.collect()
        b = len(gc.get_objects())
        rec.see((nid, 'residue'), residue=max(0, b - a))
        if b - a >= 32:
            # again, to tell growth from a late first time
            a = b
            for i in range(32):
                once(i)
            gc.collect()
            b = len(gc.get_objects())
            if b - a >= 32:
                rec.bad('residue:' + where, 'each reading of a %s leaves %.1f objects behind' % (where, (b - a) / 32.0), der=datas[0].hex())


def groups(items, n):
    return [items[i:i + n] for i in range(0, len(items), n)]


def run(ck):
    subs = spread(subjects(ck.rec), ck.seed)
    jobs = [(s, at, lid, 12) for s in subs for at, lid in lists(s[2])]
    ck.notes['types_with_lists'] = len(jobs)
    n = ck.pick(6, 12)
    ck.map(scaling, jobs, 'lists')
    ck.map(hard, [s + (n,) for s in subs], 'hard')
    ck.map(text, [(w, x) for w in SHAPES for x in ck.pick([20, 300], [20, 300, 3000])], 'text')
    ck.map(bulk, [(w, 60000) for w in SHAPES], 'bulk', chunk=1)
    ck.map(patterns, ['before', 'inside', 'after', 'alone'], 'patterns', chunk=1)
    ck.map(weighty, [(s, at, lid, 1000) for s, at, lid, _ in jobs], 'weighty')
    ck.map(tools, [(t, 5) for t in TOOLS for _ in range(ck.pick(2, 10))], 'tools', chunk=1)
    ck.map(residue, groups([s for s in subs][:ck.pick(600, 100000)], 40), 'residue')
    # types that do something of their own, in numbers that show it
    own = [(s, at, lid, 400) for s in hot(subs) for at, lid in lists(s[2])]
    if len(own) > 60:
        top = hot(subs, 0)
        near = [x for x in own if x[0] in top]
        own = near[:60] + ck.rng('own').sample(own, max(0, 60 - len(near)))
    ck.notes['types_with_code'] = len(own)
    ck.map(scaling, own, 'own', chunk=1)
    rnd = 0
    while ck.thorough and ck.elapsed() < 400 and rnd < 40:
        ck.map(scaling, [(s, at, lid, 40) for s, at, lid, _ in jobs], 'lists%d' % rnd, budget=460)
        ck.map(hard, [s + (20,) for s in subs], 'hard%d' % rnd, budget=480)
        ck.map(tools, [(t, 12) for t in TOOLS], 'tools%d' % rnd, chunk=1, budget=480)
        rnd += 1
