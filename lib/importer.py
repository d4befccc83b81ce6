"""Runs in a fresh interpreter: imports modules in a given order while an audit
hook watches, then prints what they publish as JSON.

stdin: {"repo":..., "order":[...], "threads": n, "report": [modules]}
"""
import sys
import json
import os

events = []
armed = [False]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
BANNED = ('socket.', 'subprocess.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.remove',
          'os.rename', 'os.mkdir', 'os.rmdir', 'os.putenv', 'os.unsetenv', 'os.chmod', 'os.chdir', 'os.kill', 'shutil.',
          'tempfile.', 'urllib.', 'ctypes.', 'signal.', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval')


def hook(name, args):
    if not armed[0]:
        return
    if name == 'open':
        flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
        if flags & WRITE and '.pyc' not in str(args[0]):
            events.append('open for writing: %s' % (args[0],))
    elif name.startswith(BANNED):
        events.append('%s %s' % (name, str(args)[:80]))


def fp_factory():
    """structural fingerprint of schema objects, values, constraints, plain data"""
    import hashlib
    memo = {}
    keep = []
    from pyasn1.type import base, univ, namedtype, namedval, tag, constraint, opentype, tagmap

    def h(x):
        return hashlib.blake2b(repr(x).encode('utf-8', 'backslashreplace'), digest_size=8).hexdigest()

    def fp(o):
        if o is None or isinstance(o, (int, float, str, bytes, bool)) and not isinstance(o, base.Asn1Item):
            return repr(o)
        if id(o) in memo:
            return memo[id(o)]
        memo[id(o)] = 'recursive'
        keep.append(o)
        r = memo[id(o)] = h(desc(o))
        return r

    def vals(o):
        if isinstance(o, (univ.SequenceOf, univ.SetOf)):
            v = o._componentValues
            return [] if v is univ.noValue else [(i, fp(v[i])) for i in sorted(v)]
        if isinstance(o, (univ.Sequence, univ.Set, univ.Choice)):
            v = o._componentValues
            return [] if v is univ.noValue else [None if x is univ.noValue else fp(x) for x in v]
        return o.prettyPrint() if o.isValue else None

    def desc(o):
        if isinstance(o, type):
            if issubclass(o, base.Asn1Item):
                try:
                    return ('class', fp(o()), o.__mro__[1].__name__)
                except Exception as e:
                    return ('class', type(e).__name__)
            return ('type', o.__name__)
        if isinstance(o, base.Asn1Item):
            d = [[c.__name__ for c in type(o).__mro__ if c.__module__.startswith('pyasn1.')][:1], fp(o.tagSet),
                 fp(o.subtypeSpec), vals(o)]
            if isinstance(o, base.ConstructedAsn1Type):
                d.append(fp(o.componentType))
                d.append(fp(getattr(o, 'sizeSpec', None)))
            if hasattr(o, 'namedValues'):
                d.append(sorted((str(a), int(b)) for a, b in o.namedValues.items()))
            if hasattr(o, 'encoding'):
                d.append(str(o.encoding))
            return d
        if isinstance(o, namedtype.NamedTypes):
            return [(type(t).__name__, t.name, fp(t.asn1Object), fp(t.openType) if t.openType else None) for t in o.namedTypes]
        if isinstance(o, opentype.OpenType):
            return ('ot', o.name)
        if isinstance(o, tag.TagSet):
            return [(int(t.tagClass), int(t.tagFormat), int(t.tagId)) for t in o.superTags]
        if isinstance(o, constraint.AbstractConstraint):
            vs = [cv(x) for x in o._values]
            if type(o).__name__ in ('PermittedAlphabetConstraint', 'SingleValueConstraint'):
                vs = sorted(vs, key=repr)
            return (type(o).__name__, vs)
        if isinstance(o, dict):
            return sorted((str(a), fp(b)) for a, b in o.items())
        if callable(o):
            return ('callable', getattr(o, '__name__', ''))
        return ('other', type(o).__name__)

    def cv(x):
        if isinstance(x, base.Asn1Item):
            return x.prettyPrint() if x.isValue else 'schema'
        if isinstance(x, constraint.AbstractConstraint):
            return fp(x)
        if isinstance(x, (tuple, list)):
            return [cv(y) for y in x]
        if isinstance(x, dict):
            return sorted((str(a), cv(b)) for a, b in x.items())
        return repr(x)
    return fp


def environment():
    import builtins
    import signal
    import threading
    import warnings
    import pyasn1.type.univ
    import pyasn1.type.char
    import pyasn1.type.useful
    import pyasn1.type.base
    import pyasn1.type.namedtype
    import pyasn1.type.constraint
    import pyasn1.type.tag
    import pyasn1.codec.ber.decoder
    import pyasn1.codec.ber.encoder
    import pyasn1.codec.der.decoder
    import pyasn1.codec.der.encoder
    out = {'path': list(sys.path), 'reclimit': sys.getrecursionlimit(), 'filters': repr(warnings.filters),
           'environ': sorted(os.environ.items()), 'cwd': os.getcwd(), 'threads': threading.active_count(),
           'builtins': sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'),
           'switch': sys.getswitchinterval(), 'sigint': str(signal.getsignal(signal.SIGINT)),
           'hooks': [id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr)]}
    import base64
    import codecs
    import copyreg
    import decimal
    import gc
    import linecache
    import locale
    import logging
    import pickle
    import random
    import socket
    import time
    out.update(
        decimal=str(decimal.getcontext()), locale=locale.setlocale(locale.LC_ALL), gc=[gc.get_threshold(), gc.isenabled()],
        logging=[str(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable],
        socket=socket.getdefaulttimeout(), random=hash(random.getstate()), umask=umask(), finders=[id(x) for x in sys.meta_path + sys.path_hooks],
        signals=[str(signal.getsignal(x)) for x in sorted(signal.valid_signals()) if x not in (9, 19)], tz=time.tzname,
        intdigits=sys.get_int_max_str_digits() if hasattr(sys, 'get_int_max_str_digits') else 0, copyreg=len(copyreg.dispatch_table),
        exits=__import__('atexit')._ncallbacks(), codecs=[id(codecs.lookup_error(x)) for x in ('strict', 'ignore', 'replace')],
        profile=[str(sys.gettrace()), str(sys.getprofile())])
    for m in (sys, os, base64, codecs, pickle, time, random, copyreg):
        out[m.__name__] = sorted((k, id(v)) for k, v in vars(m).items() if callable(v) and not k.startswith('_') or k in ('maxsize', 'maxint', 'byteorder'))
    for name in sorted(sys.modules):
        if name.startswith('pyasn1.'):
            m = sys.modules[name]
            out[name] = sorted((k, id(v)) for k, v in vars(m).items() if not k.startswith('__') and type(v).__name__ != 'module')
            for k, v in vars(m).items():
                if isinstance(v, type) and v.__module__ == name:
                    out[name + '.' + k] = sorted((a, id(b)) for a, b in vars(v).items() if not a.startswith('__') or a in (
                        '__init__', '__getitem__', '__setitem__', '__eq__', '__hash__', '__call__'))
                elif isinstance(v, dict) and not k.startswith('__'):
                    out[name + '.' + k] = sorted((str(a), id(b)) for a, b in v.items())
    return out


def umask():
    x = os.umask(0o22)
    os.umask(x)
    return x


def main():
    job = json.load(sys.stdin)
    sys.path.insert(0, job['repo'])
    import importlib
    import pyasn1_modules
    env0 = environment()
    env0 = environment()
    sys.addaudithook(hook)
    armed[0] = True
    errors = []
    if job.get('threads'):
        import threading
        sys.setswitchinterval(1e-6)
        env0['switch'] = sys.getswitchinterval()
        gate = threading.Barrier(len(job['order']))

        def go(order):
            gate.wait()
            for n in order:
                try:
                    importlib.import_module('pyasn1_modules.' + n)
                except BaseException as e:
                    errors.append('%s: %s: %s' % (n, type(e).__name__, str(e)[:200]))
        ts = [threading.Thread(target=go, args=(o,)) for o in job['order']]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            if t.is_alive():
                errors.append('deadlock: a thread is still importing')
                print(json.dumps({'errors': errors}))
                sys.stdout.flush()
                os._exit(0)
    else:
        for n in job['order']:
            try:
                importlib.import_module('pyasn1_modules.' + n)
            except BaseException as e:
                errors.append('%s: %s: %s' % (n, type(e).__name__, str(e)[:200]))
    armed[0] = False
    env1 = environment()
    changed = [k for k in env0 if env0[k] != env1.get(k)]
    fp = fp_factory()
    import pyasn1.type.univ

    def entry(b):
        # Null() and Null('') mean the same as the type of some content
        if isinstance(b, pyasn1.type.univ.Null):
            b = pyasn1.type.univ.Null().subtype(**({} if b.tagSet == pyasn1.type.univ.Null.tagSet else {'implicitTag': b.tagSet[-1]}))
        return fp(b)
    mods, maps = {}, {}
    report = job.get('report')
    for name in sorted(sys.modules):
        if not name.startswith('pyasn1_modules.'):
            continue
        n = name.split('.', 1)[1]
        m = sys.modules[name]
        if report is None or n in report:
            mods[n] = dict((k, fp(v)) for k, v in vars(m).items() if not k.startswith('_') and not isinstance(v, dict) and
                           type(v).__name__ != 'module')
            ns = {}
            exec('from %s import *' % name, ns)
            mods[n]['*'] = sorted(k for k in ns if not k.startswith('_'))
        for k, v in vars(m).items():
            if isinstance(v, dict) and not k.startswith('_'):
                maps[n + '.' + k] = dict((str(a), entry(b)) for a, b in v.items())
    print(json.dumps({'mods': mods, 'maps': maps, 'events': events, 'changed': changed, 'errors': errors}))


if __name__ == '__main__':
    main()
