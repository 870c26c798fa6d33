# -*- coding: utf-8 -*-
"""P43 - loaders and savers make instances of their class of what they are given, called or by their methods."""
import copy
import json
import pathlib
import shutil
import sys
import tempfile
import types as pytypes

from harness import gen
from harness.objmodel import Spec, SCALARS, KArr, KObj, plain, same


def register(run):
    from ngoschema.exceptions import InvalidValue, ConversionError
    from ngoschema.protocols.loader import Loader, Saver
    from ngoschema.protocols.file_loader import FileLoader, FileSaver
    from ngoschema.protocols.resolver import Resolver
    from ngoschema.protocols.transformer import Transformer
    from ngoschema.protocols.checker import Checker
    from ngoschema.protocols.converter import Converter
    from ngoschema.repositories import JsonFileRepository, YamlFileRepository
    from ngoschema.session import session_maker
    from ngoschema.serializers.json_serializer import JsonSerializer
    from ngoschema.serializers.yaml_serializer import YamlSerializer
    run.rule = 'a distinct non-trivial case is a class, contents and the ways they are loaded and saved'
    run.assumptions = ['classes given by name can be imported', 'contents of files are plain data']
    run.require(appended=20, by_repository=40, checked=40, converted=170, files_loaded=200, given=60, loaded=260, many=90,
                named=20, of_call=40, of_kept=50, of_load=40, of_load_file=50, refused=210, saved=40, saves=200,
                transformed=200, transformed_to=60, unchecked=160, unconvertible=30)
    session = session_maker()()
    REFUSED = (InvalidValue, ConversionError)

    def holds(c, o, A, want, what):
        c.expect(type(o) is A, '%s is a %s instead of a %s', what, type(o).__name__, A.__name__)
        for k, w in want.items():
            c.expect(same(o[k], w), 'property %s of %s is %r instead of %r', k, what, plain(o[k]), w)

    def ways(rng, l, names):
        """-> what may be called"""
        return rng.choice([l] + [getattr(l, n) for n in names])

    def setup(c, kinds=SCALARS + [KArr, KObj]):
        spec = Spec(c, c.rng, kinds=kinds, n=(2, 5), required=0.)
        A = spec.build(c.rng, name='A')
        B = gen.pclass({'type': 'object', 'additionalProperties': True, 'properties': {}}, gen.uid(c, 'B'), name='B')
        mod = pytypes.ModuleType('verif_p43_%i' % c.index)
        mod.A, mod.B = A, B
        A.__module__ = B.__module__ = mod.__name__
        sys.modules[mod.__name__] = mod
        return spec, A, B, mod.__name__

    @run.workload('values', quick=150, thorough=3000)
    def _(c):
        rng = c.rng
        spec, A, B, mod = setup(c)
        try:
            named = rng.random() < .4
            l = rng.choice([Loader, Saver])(instanceClass=mod + '.A' if named else A)
            c.hit('named', named)
            free = Loader()
            loads = []
            for _i in range(rng.randint(2, 5)):
                many = rng.random() < .4
                n = rng.randint(0, 3) if many else 1
                data, wants = zip(*[spec.initial(rng, .7) for _ in range(n)]) if n else ((), ())
                value = list(data) if many else data[0]
                before = copy.deepcopy(value)
                saver = isinstance(l, Saver)
                opts = dict({'many': True} if many else {}, **({'load': True} if saver else {}))
                if saver and rng.random() < .4:
                    # not serializing does not keep from loading
                    opts['serialize'] = False
                f = ways(rng, l, ['save'] if saver else ['load'])
                c.log('load', named, many, saver, getattr(f, '__name__', 'call'), value)
                c.sig(value, opts)
                other = rng.random() < .3
                if other:
                    got = f(value, instance_class=B, **opts)
                    for o in got if many else [got]:
                        c.expect(type(o) is B, 'the class given with the call makes a %s', type(o).__name__)
                    c.hit('given')
                got = f(value, **opts)
                c.expect(not many or type(got) is list and len(got) == n, 'loading %i values gives %r', n, got)
                for o, w in zip(got if many else [got], wants):
                    holds(c, o, A, w, 'the object loaded')
                    c.hit('loaded')
                c.expect(value == before, 'the values loaded were modified: %r instead of %r', value, before)
                c.hit('many', many)
                # without a class
                g = ways(rng, free, ['load'])(value, **({'many': True} if many else {}))
                c.expect(g == before, 'loaded without a class: %r', g)
                # a saver does not load unless it is asked to
                if saver and not many:
                    o = A(value)
                    c.expect(ways(rng, l, ['save'])(o) is o or ways(rng, l, ['save'])(o) == o, 'the object saved is another')
                    c.hit('saved')
                bad = next((b for b in [(k, t.bad(rng)) for k, t in spec.kinds.items()] if b[1] is not None), None)
                if bad:
                    v = dict(data[0], **{bad[0]: bad[1]}) if n else {bad[0]: bad[1]}
                    c.log('bad', v)
                    v = [v] if many else v

                    def refused():
                        got = f(v, **opts)
                        plain(got[0] if many else got)
                    c.raises(refused, 'loading %r' % (bad, ), kinds=REFUSED)
                    c.hit('refused')
        finally:
            del sys.modules[mod]

    @run.workload('files', quick=100, thorough=2000)
    def _(c):
        rng = c.rng
        spec, A, B, mod = setup(c)
        d = pathlib.Path(tempfile.mkdtemp(prefix='p43.'))
        try:
            enc = rng.choice([JsonSerializer, JsonSerializer, YamlSerializer])
            charset = rng.choice(['utf-8', 'utf-16'])
            fl = FileLoader(encoder=enc, instanceClass=rng.choice([A, mod + '.A']), charset=charset)
            fs = FileSaver(encoder=enc, charset=charset)
            paths = [d / n for n in ['a', 'b.json', 'sub/c']]
            held = {}
            for _i in range(rng.randint(3, 7)):
                p = rng.choice(paths)
                raw, want = spec.initial(rng, .7)
                data = A(raw).do_serialize()
                data = json.loads(json.dumps(data, default=float))
                want = {k: w for k, w in want.items() if spec.kinds[k].name != 'number'}
                how = rng.choice(['call', 'save', 'save_file'])
                c.log('save', how, p.name, data)
                c.sig(how, data)
                if p in held and rng.random() < .25:
                    # the text is added to the file by this call only
                    raw = p.read_bytes()
                    text = fs.save_file(data, p, append=True) if how == 'save_file' else fs(data, filepath=p, append=True) if \
                        how == 'call' else fs.save(data, p, append=True)
                    c.equal(p.read_bytes(), raw + text.encode(charset), 'bytes of the file appended to')
                    c.hit('appended')
                before = copy.deepcopy(data)
                if how == 'call':
                    text = fs(data, filepath=p)
                elif how == 'save':
                    text = rng.choice([lambda: fs.save(data, p), lambda: fs.save(data, filepath=p)])()
                else:
                    text = fs.save_file(data, p)
                c.expect(data == before, 'what is saved was modified')
                c.equal(p.read_bytes().decode(charset), text, 'text of the file')
                if enc is JsonSerializer:
                    c.expect(json.loads(text) == data, 'text saved: %r', text)
                held[p] = (data, want)
                c.hit('saves')
                p = rng.choice(sorted(held))
                data, want = held[p]
                how = rng.choice(['call', 'load', 'load_file', 'kept'])
                c.log('load', how, p.name)
                if how == 'kept':
                    k = FileLoader(encoder=enc, instanceClass=A, charset=charset, filepath=p)
                    o = k.load()
                    holds(c, k.load(), A, want, 'the file loaded again')
                else:
                    f = {'call': fl, 'load': fl.load, 'load_file': fl.load_file}[how]
                    o = f(rng.choice([p, str(p)]))
                holds(c, o, A, want, 'the file loaded')
                c.hit('files_loaded')
                c.hit('of_' + how)
                g = rng.choice([FileLoader(encoder=enc, charset=charset), FileLoader(encoder=enc, charset=charset).load])(p)
                c.expect(plain(g) == data, 'a file loaded without a class: %r instead of %r', g, data)
                if rng.random() < .3:
                    c.expect(type(fl.load_file(p, instance_class=B)) is B, 'the class given with the call')
                    holds(c, fl(p), A, want, 'the file loaded after another class was given')
                if charset == 'utf-8' and rng.random() < .4:
                    # repositories of files are file loaders
                    R = JsonFileRepository if enc is JsonSerializer else YamlFileRepository
                    r = rng.choice([lambda: R(instanceClass=A, filepath=p, session=session),
                                    lambda: R({'instanceClass': A, 'filepath': p}, session=session)])()
                    holds(c, rng.choice([lambda: r.load(), lambda: r.load_file(p), lambda: r.load(p)])(), A, want,
                          'the file loaded by a repository')
                    q = rng.choice(sorted(held))
                    if q.read_bytes()[:1] not in b'\xff\xfe':
                        holds(c, r.load_file(q), A, held[q][1], 'another file loaded by a repository')
                    c.hit('by_repository')
                missing = d / 'none'
                c.raises(lambda: ways(rng, fl, ['load', 'load_file'])(missing), 'a missing file')
        finally:
            del sys.modules[mod]
            shutil.rmtree(str(d), ignore_errors=True)

    @run.workload('conversions', quick=100, thorough=2000)
    def _(c):
        rng = c.rng
        py = rng.choice([int, float, str, list, tuple])
        values = {int: ['3', 4, '-7', 2.0, 'x', None, [1], False, 0., 0, ''], float: ['1.5', 2, 'y', None, 3.25, 0, '0', ''],
                  str: [1, 'a', 2.5, [1], None, 0, False, [], '', ()],
                  list: ['ab', (1, 2), [3], 5, None, (), '', []], tuple: ['ab', [1, 2], (3, ), 5, None, [], '', ()]}[py]
        C = type('C', (Converter, ), {'_pyType': py})
        K = type('K', (Checker, ), {'_pyType': py})
        R = type('R', (Resolver, C), {'_resolve': staticmethod(lambda self, value, **opts: ('resolved', value))})
        conv, check, res = rng.choice([C(), Converter(pyType=py)]), rng.choice([K(), Checker(pyType=py)]), R(converter=C)
        to = rng.choice([str, repr, lambda v, **o: [v, v]])
        T = type('T', (Transformer, ), {'_pyType': None, '_toClass': staticmethod(to) if to is not str else str})
        tr = Transformer(toClass=to)
        c.sig(py.__name__, rng.random())
        for v in rng.sample(values, rng.randint(2, len(values))):
            c.log(py.__name__, v)
            try:
                want = None if v is None else v if isinstance(v, py) else py(v)
            except Exception:
                c.raises(lambda: conv(v), 'conversion of %r' % (v, ), kinds=ConversionError)
                c.raises(lambda: C.convert(v), 'conversion of %r' % (v, ), kinds=ConversionError)
                c.raises(lambda: res(v), 'conversion of %r' % (v, ), kinds=ConversionError)
                c.expect(not C.check(v, convert=True), 'conversion of %r', v)
                c.hit('unconvertible')
            else:
                c.equal(conv(v), want, 'called with %r', v)
                c.equal(C.convert(v), want, 'convert %r', v)
                c.expect(C.check(v, convert=True) == (v is not None), 'check of the conversion of %r', v)
                c.equal(res(v), ('resolved', want), 'resolver called with %r', v)
                c.equal(R.resolve(v), ('resolved', want), 'resolve %r', v)
                c.equal(res(v, convert=False), ('resolved', v), 'resolver called with %r without conversion', v)
                c.equal(R.resolve(v, convert=False), ('resolved', v), 'resolve %r without conversion', v)
                c.hit('converted')
            if isinstance(v, py):
                c.expect(check(v) is v and K.check(v) and C.check(v), '%r is checked', v)
                c.hit('checked')
            else:
                c.raises(lambda: check(v), 'check of %r' % (v, ), kinds=TypeError)
                c.expect(not K.check(v) and not C.check(v), 'check of %r', v)
                c.hit('unchecked')
            c.equal(tr(v), to(v), 'transformation of %r', v)
            if rng.random() < .3:
                c.equal(tr(v, toClass=lambda v, **o: (v, 'other')), (v, 'other'), 'transformation of %r to the class given', v)
                c.equal(tr(v), to(v), 'transformation of %r after another was given', v)
                c.hit('transformed_to')
            c.hit('transformed')
