# -*- coding: utf-8 -*-
"""P32 - importable types resolve dotted names to the very object Python would import, and name it back."""
import importlib
import inspect
import types as T

from harness import gen

MODULES = ['os', 'os.path', 'json', 'json.decoder', 'collections', 'collections.abc', 'string', 'decimal', 'pathlib',
           'urllib.parse', 'logging', 'logging.handlers', 'datetime', 'ngoschema', 'ngoschema.types',
           'ngoschema.types.object', 'ngoschema.query', 'ngoschema.utils.utils', 'xml.dom.minidom', 'xml.etree.ElementTree',
           'email.mime.text', 'textwrap', 'fractions', 'importlib.machinery', 'unittest.mock']


def register(run):
    from ngoschema import types
    from ngoschema.exceptions import ConversionError
    run.rule = 'a distinct non-trivial case is a (module, member path, symbol type) triple'
    run.require(named=1, resolved=1)

    pool = []      # (dotted, object)
    for m in MODULES:
        mod = importlib.import_module(m)
        pool.append((m, mod))
        for n, o in sorted(vars(mod).items()):
            if n.startswith('_') or not o or inspect.ismodule(o):
                continue
            d = '%s.%s' % (m, n)
            try:
                importlib.import_module(d)
                continue     # a submodule shadows the attribute
            except Exception:
                pass
            if isinstance(o, (type, T.FunctionType)):
                pool.append((d, o))
            if isinstance(o, type):
                for k, v in sorted(vars(o).items()):
                    if isinstance(v, (T.FunctionType, type)) and not k.startswith('_'):
                        pool.append((d + '.' + k, getattr(o, k)))
    builtin = [(n, getattr(__import__('builtins'), n)) for n in ('int', 'dict', 'list', 'str', 'len', 'ValueError', 'sorted')]
    for dn, o in builtin:
        pool.append((dn, o))

    CHECKS = {
        'importable': (types.Symbol, lambda o: True),
        'module': (types.Module, lambda o: isinstance(o, T.ModuleType)),
        'function': (types.Function, lambda o: isinstance(o, T.FunctionType)),
        'class': (types.Class, lambda o: isinstance(o, type)),
        'callable': (types.Callable, callable),
    }
    # a module whose members nest deeper than those of the standard library
    import sys
    deep = T.ModuleType('verif_deep_module')
    src = 'class A:\n class B:\n  class C:\n   class D:\n    def f(self): pass\n   def g(self): pass\ndef h(): pass\n'
    exec(compile(src, 'verif_deep_module', 'exec'), vars(deep))
    sys.modules['verif_deep_module'] = deep
    for dn in ('', '.A', '.A.B', '.A.B.C', '.A.B.C.D', '.A.B.C.D.f', '.A.B.C.g', '.h'):
        o = deep
        for part in dn.split('.')[1:]:
            o = getattr(o, part)
        pool += [('verif_deep_module' + dn, o)] * 12
    # packages inside packages, hidden behind attributes which are something else, the modules being those to import
    path = 'verif_pk'
    above = None
    for part in ('', '.b', '.c', '.d', '.e'):
        path += part
        m = sys.modules[path] = T.ModuleType(path)
        m.__path__ = []
        exec(compile('class K:\n class L:\n  pass\ndef f(): pass\n', path, 'exec'), vars(m))
        if above:
            setattr(above, part[1:], T.SimpleNamespace(K=int, f=len, **{k: T.SimpleNamespace(K=str, f=max) for k in 'cde'}))
        above = m
        pool += [(path, m)] * 4 + [(path + '.K', m.K), (path + '.K.L', m.K.L), (path + '.f', m.f)] * 4
    by_kind = {'module': [p for p in pool if isinstance(p[1], T.ModuleType)],
               'class': [p for p in pool if isinstance(p[1], type)],
               'function': [p for p in pool if isinstance(p[1], T.FunctionType)],
               'nested': [p for p in pool if isinstance(p[1], (type, T.FunctionType)) and '.' in getattr(p[1], '__qualname__', '')]}

    def pick(rng):
        return rng.choice(by_kind[rng.choice(sorted(by_kind))])

    @run.workload('resolve', quick=600)
    def _(c):
        rng = c.rng
        kind = rng.choice(sorted(CHECKS))
        dotted, obj = rng.choice(pool) if rng.random() < .5 else pick(rng)
        c.sig(dotted, kind)
        cls, ok = CHECKS[kind]
        t = [lambda: cls(), lambda: gen.build(gen.uid(c, kind), {'type': kind})][rng.randrange(2)]()
        if ok(obj):
            got = t(dotted)
            c.expect(got is obj, '%s %r resolved to %r', kind, dotted, got)
            c.expect(t(obj) is obj, '%s: an object is not left alone', kind)
            c.expect(t.check(obj) is True, '%s check of %r', kind, obj)
            c.hit('resolved')
            # the name given back designates the same object
            name = cls.serialize(obj)
            if isinstance(obj, T.ModuleType):
                c.equal(name, obj.__name__, 'name of the module %r', dotted)
            else:
                q = getattr(obj, '__qualname__', None)
                if q and '<locals>' not in q and getattr(obj, '__module__', None):
                    c.equal(name, '%s.%s' % (obj.__module__, q), 'name of %r', dotted)
                    try:
                        cur = importlib.import_module(obj.__module__)
                        for a in q.split('.'):
                            cur = getattr(cur, a)
                    except (AttributeError, ImportError):
                        cur = None
                    if cur is obj:
                        c.expect(t(name) is obj, '%r serialized as %r is read back as %r', obj, name, t(name))
            c.hit('named')
        else:
            c.raises(lambda: t(dotted), '%s of %r', kind, dotted, kinds=ConversionError)
            c.raises(lambda: t(obj), '%s of the object %r', kind, obj, kinds=ConversionError)
            if kind in ('module', 'function', 'class'):
                c.expect(t.check(obj) is False, '%s check of %r', kind, obj)
            c.hit('refused')

    @run.workload('unknown', quick=150)
    def _(c):
        rng = c.rng
        dotted, _o = pick(rng)
        kind = rng.choice(['module', 'function', 'class', 'callable'])
        name = rng.choice([dotted + '.nope_' + gen.word(rng), 'nope_%s.%s' % (gen.word(rng), gen.word(rng)),
                           'nope_' + gen.word(rng), dotted.rsplit('.', 1)[0] + '.nope_' + gen.word(rng)])
        c.sig(name, kind)
        t = gen.build(gen.uid(c, kind), {'type': kind})
        c.raises(lambda: t(name), '%s of the unknown name %r', kind, name, kinds=ConversionError)
        A = gen.pclass({'properties': {'f': {'type': kind}}}, gen.uid(c))
        c.raises(lambda: A(f=name).f, '%s property of the unknown name %r', kind, name, kinds=ConversionError)
        c.hit('refused')
