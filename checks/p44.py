# -*- coding: utf-8 -*-
"""P44 - using the library leaves the process as it was, and keeps nothing of the objects which are dropped."""
import builtins
import datetime
import decimal
import gc
import glob
import importlib
import io
import json
import locale
import logging
import os
import pathlib
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings
import weakref

from harness import core, gen
from harness.objmodel import Spec, SCALARS, KArr, KObj

HERE = os.path.dirname(os.path.abspath(__file__))
ROUNDINGS = ['ROUND_DOWN', 'ROUND_UP', 'ROUND_HALF_EVEN', 'ROUND_CEILING', 'ROUND_HALF_DOWN']


LOCALES = ['C', 'C.UTF-8', 'POSIX']
for l in list(LOCALES):
    try:
        was = locale.setlocale(locale.LC_TIME)
        locale.setlocale(locale.LC_TIME, l)
        locale.setlocale(locale.LC_TIME, was)
    except locale.Error:
        LOCALES.remove(l)


def descriptors():
    """files of the folders of the cases which are open"""
    found = set()
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if p.startswith(tempfile.gettempdir() + '/'):
            found.add(p)
    return found


def handled():
    found = {}
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE):
        found[s] = signal.getsignal(s)
    return found


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def context():
    d = decimal.getcontext()
    return dict(prec=d.prec, rounding=d.rounding, Emin=d.Emin, Emax=d.Emax, capitals=d.capitals,
                traps=sorted(k.__name__ for k, v in d.traps.items() if v))


def state():
    """what the code of the user may rely on in its process"""
    import yaml
    return {
        'decimal context': context(),
        'default decimal context': (decimal.DefaultContext.prec, decimal.DefaultContext.rounding),
        'state of random': hash(random.getstate()),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'import path': list(sys.path),
        'warning filters': list(warnings.filters),
        'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': handled(),
        'umask': umask(),
        'recursion limit': sys.getrecursionlimit(),
        'root logger': (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions),
        'socket timeout': socket.getdefaulttimeout(),
        'builtins': sorted(vars(builtins)),
        'hooks': (sys.excepthook, sys.displayhook, builtins.__import__, list(sys.meta_path), list(sys.path_hooks)),
        'garbage collector': gc.isenabled(),
        'json': (json._default_encoder, json._default_decoder, json.JSONEncoder.default),
        'yaml': (dict(yaml.SafeLoader.yaml_constructors), dict(yaml.SafeDumper.yaml_representers)),
    }


def register(run):
    run.rule = 'a distinct non-trivial case is a case of the workload of another property, or a class and what its instances went through'
    run.assumptions = ['lru caches, of a bounded size, may keep texts and types', 'flags of decimal contexts are not looked at']
    run.require(compared=930, done=90, done_file=40, freed=130, of_append=9, of_bytes=10, of_compare=20,
                of_copy=20, of_document=20, of_entity=20, of_expr=20, of_hold=20, of_info=12, of_item=20, of_load=10,
                of_print=20, of_query=20, of_read=30, of_refused=20, of_save=10, of_serialize=20, of_set=20, of_validate=20,
                of_write=10, refused=30, refused_file=40, refused_step=40, watched=50)

    # ------------------------------------------------------------------ cases of the other properties
    others = []
    for f in sorted(glob.glob(os.path.join(HERE, 'p??.py'))):
        pid = os.path.basename(f)[:3].upper()
        # those run the library in threads, in other processes, or with a state of the process which is theirs
        if pid in ('P44', 'P29'):
            continue
        sub = core.Run(pid, 'quick', run.seed)
        try:
            importlib.import_module('checks.' + pid.lower()).register(sub)
        except Exception:
            # the check of this property says why
            run.counters['monitor:not_watched'] += 1
            continue
        for wl in sub.workloads:
            others.append((sub, wl))

    def one(sub, wl, index):
        """what the case itself sees is judged by its property"""
        case = core.Case(sub, wl.name, index)
        try:
            wl.fun(case)
        except core.CaseTimeout:
            raise
        except Exception:
            run.counters['monitor:failed'] += 1

    def watch(c, sub, wl, index):
        rng = c.rng
        d = os.path.realpath(tempfile.mkdtemp(prefix='p44.'))
        was, cwd = decimal.getcontext(), os.getcwd()
        was_locale = locale.setlocale(locale.LC_ALL)
        filters, root = list(warnings.filters), logging.root.level
        limit = sys.getrecursionlimit()
        try:
            # marks which anything set to a fixed value would remove
            decimal.setcontext(decimal.Context(prec=rng.randint(29, 60), rounding=rng.choice(ROUNDINGS)))
            os.chdir(d)
            os.environ['P44_MARK'] = d
            random.seed(rng.random())
            locale.setlocale(locale.LC_TIME, rng.choice(LOCALES))
            warnings.filterwarnings('ignore', message='p44 %i' % rng.randint(0, 10 ** 6))
            logging.root.setLevel(rng.choice([11, 21, 31]))
            sys.setrecursionlimit(limit + rng.randint(1, 50))
            before, files, threads = state(), descriptors(), set(threading.enumerate())
            t0 = time.time()
            one(sub, wl, index)
            c.run.counters['ms:' + sub.pid] += int(1000 * (time.time() - t0))
            after = state()
            for k, v in before.items():
                if k == 'builtins':
                    # modules may be loaded by the first case which needs them, nothing is removed
                    c.expect(not set(v).difference(after[k]), '%s after %s/%s: %r are missing', k, sub.pid, wl.name,
                             set(v).difference(after[k]))
                    continue
                if k == 'yaml':
                    continue
                c.expect(after[k] == v, 'the %s is %r instead of %r after the case %s of %s/%s', k, after[k], v, index, sub.pid, wl.name)
                c.hit('compared')
            left = [p for p in descriptors() - files]
            c.expect(not left, 'files are left open after the case %s of %s/%s: %s', index, sub.pid, wl.name, left)
            c.expect(set(threading.enumerate()) <= threads, 'threads are left running after %s/%s', sub.pid, wl.name)
            c.expect(not os.listdir(d), '%s written in the working directory by %s/%s', os.listdir(d), sub.pid, wl.name)
        finally:
            os.chdir(cwd)
            decimal.setcontext(was)
            os.environ.pop('P44_MARK', None)
            warnings.filters[:] = filters
            logging.root.setLevel(root)
            locale.setlocale(locale.LC_ALL, was_locale)
            sys.setrecursionlimit(limit)
            shutil.rmtree(d, ignore_errors=True)

    @run.workload('process', quick=3 * len(others), thorough=30 * len(others))
    def _(c):
        sub, wl = others[c.index % len(others)]
        index = c.index // len(others)
        c.log(sub.pid, wl.name, index)
        c.sig(sub.pid, wl.name, index)
        if index == 0:
            # what is made once (modules, caches) is made before it is watched
            one(sub, wl, 10 ** 6)
        watch(c, sub, wl, index)
        c.hit('watched')

    # ------------------------------------------------------------------ every type, its methods, whatever they are given
    from ngoschema import types as T
    from ngoschema.types import uri as U
    TYPES = [t for t in (getattr(m, n) for m in (T, U) for n in sorted(vars(m)))
             if isinstance(t, type) and issubclass(t, T.Type) and t.__module__.startswith('ngoschema.types')
             and t.__name__ not in ('Type', 'Object', 'ForeignKey', 'CanonicalName')]
    TYPES = sorted(set(TYPES), key=lambda t: t.__name__)
    RAW = ['3', '1.5', 4, -2.25, True, None, 'abc', '2020-02-03', '12:30', '2020-02-03T10:11:12', 'http://a.org/b?c#d', '/none/x', 'x/y',
           '`1+1', '`1/0', '`nope', '{{3}}', '{{', [1, '2'], {'a': 1}, (), 'os.path', 'decimal.Decimal', '1e400', 'NaN', b'ab', object()]
    DAY = datetime.datetime(2021, 2, 3, 4, 5, 6)
    FORMATS = ['%d %B %Y', '%a %A', '%b', '%H:%M:%S', '%x %X', '%c', '%I %p', 'D MMMM YYYY', 'HH:mm', 'nope']
    METHODS = ['evaluate', 'check', 'validate', 'serialize', 'deserialize', 'convert', 'inputs', 'default']

    def methods(c):
        rng = c.rng
        for _i in range(rng.randint(4, 10)):
            t = rng.choice(TYPES)
            n = rng.choice(METHODS + ['call', 'made', 'formatted', 'formatted'])
            v = rng.choice(RAW)
            kw = rng.choice([{}, {}, {'convert': True}, {'validate': False}, {'raw_literals': True}])
            c.log(t.__name__, n, v, kw)
            try:
                if n == 'call':
                    t()(v, **kw)
                elif n == 'formatted':
                    t, v = rng.choice([(T.Date, DAY), (T.Time, DAY.time()), (T.Datetime, DAY)])
                    v = v.date() if t is T.Date else v
                    o = t(**rng.choice([{}, {'format': rng.choice(FORMATS)}]))
                    o.serialize(v), t.serialize(v, format=rng.choice(FORMATS)), o._serialize(o, v)
                elif n == 'made':
                    o = t(**({'maximum': 3, 'multipleOf': 2} if issubclass(t, T.Number) else {}))
                    getattr(o, rng.choice(METHODS))(v, **kw)
                else:
                    getattr(t, n)(v, **kw)
                c.hit('done')
            except core.CaseTimeout:
                raise
            except Exception:
                c.hit('refused')
        c.sig(c.history)

    @run.workload('types', quick=150, thorough=4000)
    def _(c):
        d = decimal.getcontext()
        third = decimal.Decimal(1) / 3
        watch_own(c, methods)
        c.expect(decimal.getcontext() is d, 'the decimal context is another one')
        c.expect(decimal.Decimal(1) / 3 == third, 'decimal numbers are rounded otherwise')

    def watch_own(c, f):
        class Wl:
            name = c.wl
            fun = staticmethod(lambda case: f(c))
        watch(c, run, Wl, c.index)
        c.hit('watched')

    # ------------------------------------------------------------------ files
    from ngoschema.serializers.json_serializer import JsonSerializer
    from ngoschema.serializers.yaml_serializer import YamlSerializer
    from ngoschema.protocols.file_loader import FileLoader, FileSaver
    from ngoschema.models.files import Document, File, FileInfo

    def files(c):
        rng = c.rng
        d = pathlib.Path(tempfile.mkdtemp(prefix='p44f.'))
        try:
            p = d / rng.choice(['a', 'b.json', 'c.yaml'])
            enc = rng.choice([JsonSerializer, YamlSerializer])
            for _i in range(rng.randint(3, 8)):
                how = rng.choice(['bytes', 'load', 'save', 'append', 'read', 'write', 'document', 'document', 'info'])
                charset = rng.choice(['utf-8', 'ascii', 'utf-16'])
                value = rng.choice([{'a': 1}, [1, 2], 'caf\u00e9', {'b': object()}, 'x: [', None])
                c.log(how, charset, value)
                c.hit('of_' + how)
                try:
                    if how == 'bytes':
                        p.write_bytes(rng.choice([b'{"a": 1}', b'\xff\xfe\x00', b'{"a": ', b'a: [', b'']))
                    elif how == 'load':
                        FileLoader(encoder=enc, charset=charset).load_file(p)
                    elif how == 'read':
                        FileLoader(encoder=enc, charset=charset).read_file(p)
                    elif how == 'save':
                        FileSaver(encoder=enc, charset=charset).save_file(value, p)
                    elif how == 'append':
                        FileSaver(encoder=enc, charset=charset).append_file(value, p)
                    elif how == 'write':
                        FileSaver(encoder=enc, charset=charset).write_file(value, p)
                    elif how == 'info':
                        f = File({'filepath': str(p)})
                        i = FileInfo(filepath=p)
                        rng.choice([lambda: f.binary, lambda: f.content, lambda: f.contentRaw, lambda: i.sha1, lambda: i.contentSize, lambda: i.sha1, lambda: f.load()])()
                    else:
                        o = Document(filepath=p, encoder=enc)
                        rng.choice([lambda: o.load(), lambda: o.content, lambda: o.contentRaw, lambda: o.write(),
                                    lambda: o.unload(), lambda: o.binary])()
                    c.hit('done_file')
                except core.CaseTimeout:
                    raise
                except Exception:
                    c.hit('refused_file')
                left = [x for x in descriptors() if x.startswith(str(d))]
                c.expect(not left, 'files are left open by %s: %s', how, left)
            c.sig(c.history)
        finally:
            shutil.rmtree(str(d), ignore_errors=True)

    @run.workload('files', quick=150, thorough=3000)
    def _(c):
        files(c)

    # ------------------------------------------------------------------ objects which are dropped
    from ngoschema.models.instances import Entity
    from ngoschema.repositories.memory_repository import MemoryRepository
    from ngoschema.session import session_maker

    def sizes():
        """items of the containers of the modules and of the classes of the library"""
        found, seen = {}, set()
        for n, m in sorted(sys.modules.items()):
            if not n.startswith('ngoschema'):
                continue
            for k, v in list(vars(m).items()):
                held = [(k, v)]
                if type(v).__module__.startswith('ngoschema') or isinstance(v, type) and v.__module__.startswith('ngoschema'):
                    try:
                        held += [('%s.%s' % (k, a), x) for a, x in list(vars(v).items())]
                    except TypeError:
                        pass
                for name, x in held:
                    if isinstance(x, (dict, list, set)) and id(x) not in seen:
                        seen.add(id(x))
                        found[n + '.' + name] = len(x)
        return found

    def made(c, spec, A, E, held, refs):
        """an object, through what objects go through"""
        rng = c.rng
        raw, want = spec.initial(rng, .7)
        o = A(raw)
        refs.append(weakref.ref(o))
        for _i in range(rng.randint(2, 8)):
            how = rng.choice(['read', 'serialize', 'copy', 'print', 'hold', 'item', 'set', 'refused', 'expr', 'entity', 'compare', 'query',
                              'validate'])
            c.log(how)
            c.hit('of_' + how)
            try:
                if how == 'read':
                    for k in list(o.keys()):
                        v = o[k]
                        if hasattr(v, '_data'):
                            refs.append(weakref.ref(v))
                elif how == 'serialize':
                    A(o.do_serialize())
                elif how == 'copy':
                    refs.append(weakref.ref(o.copy()))
                elif how == 'print':
                    str(o), repr(o)
                elif how == 'hold':
                    h = held({'o': o, 'l': [raw, o]})
                    h.o, h.l[0], h.do_serialize()
                    refs.append(weakref.ref(h))
                elif how == 'item':
                    o.get(rng.choice(sorted(spec.kinds)) + '.0', None)
                elif how == 'set':
                    k = rng.choice(sorted(spec.kinds))
                    o[k] = spec.kinds[k].typed(rng)
                elif how == 'refused':
                    k = rng.choice(sorted(spec.kinds))
                    o[k] = spec.kinds[k].bad(rng)
                    o[k]
                elif how == 'expr':
                    h = held({'n': 3, 'e': '`this.n + 1', 'p': '{{this.n}}-{{this.e}}'})
                    h.e, h.p
                    h.n = 4
                    h.e, h.p
                    refs.append(weakref.ref(h))
                elif how == 'entity':
                    e = E({'k': rng.randint(0, 9), 'v': raw})
                    s = session_maker()()
                    # without a session it belongs to the default one, which keeps it
                    r = MemoryRepository(instanceClass=E, many=True, session=s)
                    r.commit(e)
                    s.resolve_fkey((e.k, ), E)
                    refs.append(weakref.ref(e))
                    refs.append(weakref.ref(r))
                elif how == 'compare':
                    o == A(raw), o != 3
                elif how == 'query':
                    from ngoschema.query import Query
                    list(Query([o, A(raw)]).filter(nope=1))
                elif how == 'validate':
                    A.validate(o)
            except core.CaseTimeout:
                raise
            except Exception:
                c.hit('refused_step')

    def steps(c, spec, A, E, held, refs, n):
        for _i in range(n):
            made(c, spec, A, E, held, refs)

    @run.workload('dropped', quick=25, thorough=400)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, kinds=SCALARS + [KArr, KObj], n=(3, 6), required=0.)
        A = spec.build(rng, name='A')
        held = gen.pclass({'type': 'object', 'additionalProperties': True, 'properties': {
            'n': {'type': 'integer'}, 'e': {'type': 'integer'}, 'p': {'type': 'string'}}}, gen.uid(c, 'H'), name='H')
        E = gen.pclass({'type': 'object', 'primaryKeys': ['k'], 'additionalProperties': True,
                        'properties': {'k': {'type': 'integer'}}}, gen.uid(c, 'E'), name='E', bases=(Entity, ))
        steps(c, spec, A, E, held, [], 10)
        before, refs = sizes(), []
        steps(c, spec, A, E, held, refs, rng.randint(10, 20))
        c.sig(c.history)
        after = sizes()
        grown = {k: (before[k], n) for k, n in after.items() if k in before and n > before[k] + 5}
        c.expect(not grown, 'containers of the library grow with the objects made: %r', grown)
        for _i in range(4):
            gc.collect()
        alive = [r() for r in refs if r() is not None]
        c.expect(not alive, '%i objects of %i are kept once dropped, like %s', len(alive), len(refs),
                 alive and type(alive[0]).__name__)
        c.hit('freed', len(refs))
