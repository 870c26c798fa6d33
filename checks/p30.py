# -*- coding: utf-8 -*-
"""P30 - what is changed for a while is changed back: casted instances, casted classes, working directory."""
import os
import shutil
import tempfile
from pathlib import Path

from harness import gen


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def register(run):
    from ngoschema.utils.utils import casted_as, class_casted_as, working_directory
    run.rule = 'a distinct non-trivial case is a nesting of casts or of working directories left normally or by an error'
    run.assumptions = ['the directories exist when they are left']
    run.require(casts=2250, class_casts=2, members=10, objects=70, raised=290, refused=890)

    @run.workload('casts', quick=250, thorough=8000)
    def _(c):
        rng = c.rng
        ks = []
        depth = rng.randint(2, 5)
        protocol = rng.random() < .4
        for i in range(depth):
            bases = (ks[-1],) if ks else (object,)
            if i and rng.random() < .3:
                bases += (type('Mixin%i' % i, (), {'mixin': i}),)
            if protocol:
                if not ks:
                    ks.append(gen.pclass({'type': 'object', 'properties': {'v': {'type': 'integer'}}}, gen.uid(c, 'K'), 'K',
                                         who=lambda self: 0))
                    continue
                bases = (ks[-1],)
            ks.append(type('K%i' % i, bases, {'who': (lambda i: lambda self: i)(i), 'level': i}))
        o = ks[-1]()
        if protocol:
            o.v = 3
            c.hit('objects')
        else:
            o.v = 3
        other = type('Other', (), {})
        c.sig(depth, protocol, rng.random())
        err = rng.choice([Boom, Stop, KeyboardInterrupt, GeneratorExit, StopIteration])

        def nest(level, top):
            before = type(o)
            c.expect(o.who() == top, 'method of level %i is called at level %i', o.who(), top)
            if rng.random() < .3:
                def wrong():
                    with casted_as(o, rng.choice([other, int] + ks[top + 1:])):
                        pass
                c.raises(wrong, 'cast as a class which is not a base', kinds=AttributeError)
                c.expect(type(o) is before, 'class after a refused cast')
                c.hit('refused')
            if level <= 0:
                if rng.random() < .4:
                    c.hit('raised')
                    raise err('inside')
                return
            j = rng.randint(0, top)
            try:
                with casted_as(o, ks[j]) as x:
                    c.hit('casts')
                    c.expect(x is o and type(o) is ks[j], 'class in the cast')
                    c.expect(o.v == 3, 'value in the cast')
                    o.v = 3
                    nest(level - 1, j)
            finally:
                c.expect(type(o) is before, 'class after the cast is %r, it was %r', type(o), before)
        for _ in range(4):
            try:
                nest(rng.randint(1, 5), depth - 1)
            except (err, RuntimeError) as er:
                if isinstance(er, RuntimeError) and err is not StopIteration:
                    raise
            c.expect(type(o) is ks[-1] and o.who() == depth - 1 and o.v == 3, 'the object after the casts')

    @run.workload('classes', quick=250, thorough=8000)
    def _(c):
        """a class casted as one of its bases has the public members of the base and keeps the rest of its own"""
        rng = c.rng
        names = ['f', 'g', '_p', '_q', 'h']

        def members(tag):
            r = {}
            for n in rng.sample(names, rng.randint(0, 4)):
                r[n] = rng.choice([lambda t: classmethod(lambda cls: (t, n, cls._tag)), lambda t: staticmethod(lambda: (t, n)),
                                   lambda t: (t, n)])(tag)
            r['_tag'] = tag
            return r
        A = type('A', (), members('A'))
        B = type('B', (A,), members('B'))
        C = type('C', (B,), members('C'))
        D = type('D', (C,), members('D'))
        E = type('E', (D,), members('E'))
        lin = [A, B, C, D, E]
        i, j = sorted(rng.sample(range(5), 2))
        cls, other = lin[j], lin[i]
        above = [k for k in cls.__mro__ if k not in other.__mro__]
        base = [k for k in other.__mro__]
        snap = [dict(vars(k)) for k in lin]
        k = class_casted_as(cls, other)
        c.sig(cls.__name__, other.__name__, [sorted(vars(x)) for x in lin], rng.random())
        c.expect(issubclass(k, other) and not issubclass(k, cls) and k.__name__ == cls.__name__, 'bases of the casted class')
        c.hit('class_casts')
        for n in names + ['_tag']:
            def first(ks):
                return next((vars(x)[n] for x in ks if n in vars(x)), None)
            if n.startswith('_'):
                want = first(above) if any(n in vars(x) for x in above) else first(base)
            else:
                want = first(base) if any(n in vars(x) for x in base) else first(above)
            got = next((vars(x)[n] for x in k.__mro__ if n in vars(x)), None)
            c.expect(got is want, 'member %s of %s casted as %s', n, cls.__name__, other.__name__)
            if isinstance(want, classmethod):
                c.equal(getattr(k, n)()[-1], k._tag, 'class method on the casted class')
            c.hit('members')
        c.expect([{a: b for a, b in vars(x).items()} for x in lin] == snap, 'the classes have been modified')
        c.raises(lambda: class_casted_as(other, cls), 'cast as a derived class', kinds=AttributeError)
        c.raises(lambda: class_casted_as(cls, type('X', (), {})), 'cast as another class', kinds=AttributeError)

    @run.workload('directories', quick=250, thorough=8000)
    def _(c):
        rng = c.rng
        home = os.getcwd()
        top = os.path.realpath(tempfile.mkdtemp(prefix='verif-p30-'))
        try:
            dirs = [top]
            for i in range(rng.randint(1, 4)):
                d = os.path.join(rng.choice(dirs), 'd %i\u00e9' % i)
                os.mkdir(d)
                dirs.append(d)
            start = rng.choice(dirs)
            os.chdir(start)
            c.sig(dirs[1:], start == top, rng.random())
            err = rng.choice([Boom, Stop, KeyboardInterrupt])

            def nest(level):
                before = os.getcwd()
                if rng.random() < .3:
                    def wrong():
                        with working_directory(os.path.join(top, 'nowhere')):
                            pass
                    c.raises(wrong, 'missing directory', kinds=OSError)
                    c.expect(os.getcwd() == before, 'directory after a failure')
                    c.hit('missing_dirs')
                if level <= 0:
                    if rng.random() < .5:
                        c.hit('dir_raised')
                        raise err('inside')
                    return
                d = rng.choice(dirs)
                p = rng.choice([d, Path(d), os.path.relpath(d, before)])
                try:
                    with working_directory(p):
                        c.hit('directories')
                        c.expect(os.getcwd() == d, 'directory is %s, expected %s', os.getcwd(), d)
                        if rng.random() < .3:
                            os.chdir(rng.choice(dirs))
                        nest(level - 1)
                finally:
                    c.expect(os.getcwd() == before, 'directory after is %s, it was %s', os.getcwd(), before)
            for _ in range(4):
                try:
                    nest(rng.randint(1, 4))
                except err:
                    pass
                c.expect(os.getcwd() == start, 'directory after all')
        finally:
            os.chdir(home)
            shutil.rmtree(top, ignore_errors=True)
