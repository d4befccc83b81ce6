"""Structural mutation of encoded messages (on the TLV tree)."""
import ref


class N(object):
    """editable TLV node"""
    __slots__ = ('cls', 'con', 'num', 'body', 'kids')

    def __init__(self, t):
        self.cls, self.con, self.num, self.body = t.cls, t.con, t.num, t.body
        self.kids = [N(x) for x in t.kids] if t.con else None

    def der(self):
        body = b''.join(k.der() for k in self.kids) if self.kids is not None else self.body
        return ref.enc_tag(self.cls, self.num, self.con) + ref.enc_len(len(body)) + body


class Raw(object):
    def __init__(self, raw):
        self.raw = raw
        self.kids = None

    def der(self):
        return self.raw


FOREIGN = [bytes.fromhex(x) for x in ('0500', '020101', '3003020101', 'a003020101', '800101', '81020500', 'de0101',
                                      'ff876903020105', '0c0141', '0101ff', '3100', 'bf1f03020101', '0603550403')]


def tree(data):
    t, end = ref.parse(data, 0)
    return N(t)


def walk(n, path=()):
    yield path, n
    for i, k in enumerate(n.kids or ()):
        for x in walk(k, path + (i,)):
            yield x


def mutants(data, rng, limit):
    """yields (kind, octets); at most `limit` of them, sampled"""
    root = tree(data)
    ops = []
    for path, n in walk(root):
        if n.kids is not None:
            for i in range(len(n.kids)):
                ops.append(('drop', n, i))
                ops.append(('dup', n, i))
                ops.append(('retag', n, i))
                ops.append(('reclass', n, i))
                ops.append(('flip', n, i))
                ops.append(('replace', n, i))
            for i in range(len(n.kids) + 1):
                ops.append(('insert', n, i))
            for i in range(len(n.kids) - 1):
                ops.append(('swap', n, i))
    ops.append(('retag', None, 0))
    ops.append(('reclass', None, 0))
    ops.append(('flip', None, 0))
    if len(ops) > limit:
        ops = rng.sample(ops, limit)
    for op, n, i in ops:
        if n is None:
            kids = [root]
        else:
            kids = n.kids
        save = list(kids)
        k = kids[i] if i < len(kids) else None
        old = (k.cls, k.con, k.num) if k is not None else None
        redo = None
        if op == 'drop':
            del kids[i]
        elif op == 'dup':
            kids.insert(i, k)
        elif op == 'insert':
            kids.insert(i, Raw(rng.choice(FOREIGN)))
        elif op == 'replace':
            kids[i] = Raw(rng.choice(FOREIGN))
        elif op == 'swap':
            kids[i], kids[i + 1] = kids[i + 1], kids[i]
        elif op == 'retag':
            k.num = rng.choice([k.num + 1, max(0, k.num - 1), k.num + 7, 31, 200])
        elif op == 'reclass':
            k.cls = (k.cls + rng.randrange(1, 4)) % 4
        elif op == 'flip':
            k.con = not k.con
            if k.kids is not None:
                k.body = b''.join(x.der() for x in k.kids)
                redo, k.kids = k.kids, None
        out = (root if n is not None else kids[0]).der()
        if op == 'flip' and redo is not None:
            k.kids = redo
        if old:
            k.cls, k.con, k.num = old
        kids[:] = save
        if out != data:
            yield op, out


def cuts(data, rng, limit):
    """proper prefixes, at every position or a sample of them"""
    pos = list(range(1, len(data)))
    if len(pos) > limit:
        pos = sorted(rng.sample(pos, limit - 4) + [1, 2, len(data) - 1, len(data) - 2])
    for p in pos:
        yield data[:p]
