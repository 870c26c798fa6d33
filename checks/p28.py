# -*- coding: utf-8 -*-
"""P28 - decorators: arrays of arguments, asserted arguments and properties, memoized values, class properties, logs."""
import gc
import weakref

from harness import gen


class Boom(Exception):
    pass


def register(run):
    from ngoschema.decorators import (take_arrays, assert_arg, assert_prop, depend_on_prop, log_exceptions, log_init,
                                      memoized_property, memoized_method, classproperty)
    from ngoschema.exceptions import InvalidValue, ConversionError
    from ngoschema.types import Integer, String, Number, Boolean
    from python_jsonschema_objects.validators import ValidationError
    run.rule = 'a distinct non-trivial case is a (decorated signature, arguments) or a history of accesses to memoized members'
    run.assumptions = ['arrays are lists, tuples or sets given by position']
    run.require(mapped=150, zipped=22, broadcast=15, scalars=80, sizes=14, methods=300, flattened=40, asserted=800, refused=250,
                converted=200, untouched=150, props=200, undefined=60, memo_reads=700, memo_resets=100, memo_calls=600,
                dead=5, class_reads=300, class_sets=60, logged=150, errors=80)

    def kind(c, rng):
        return rng.choice(['function', 'method', 'falsy', 'static', 'class', 'unbound'])

    # ------------------------------------------------------------------ take_arrays
    @run.workload('arrays', quick=900, thorough=15000)
    def _(c):
        rng = c.rng
        second = rng.choice([None, None, True])
        flat = rng.random() < .25
        sort = kind(c, rng)
        shift = 1 if sort in ('method', 'falsy', 'class', 'unbound') else 0
        calls = []

        def body(a, b, k):
            calls.append((a, b, k))
            return ['%s/%s' % (a, b), k] if flat else '%s/%s/%s' % (a, b, k)
        args = dict(flatten=flat)
        if second:
            args['narg2'] = 1 + shift
        deco = take_arrays(shift, **args)
        if shift:
            def f(self, a, b='dflt', k=None):
                """doc of f"""
                calls.append(self)
                return body(a, b, k)
            cls = type('A', (), {'f': classmethod(deco(f)) if sort == 'class' else deco(f),
                                 '__len__': (lambda self: 0) if sort == 'falsy' else (lambda self: 1)})
            obj = cls()
            call = {'method': obj.f, 'falsy': obj.f, 'class': cls.f, 'unbound': lambda *a, **k: cls.f(obj, *a, **k)}[sort]
            me = cls if sort == 'class' else obj
            c.hit('methods')
        else:
            @deco
            def f(a, b='dflt', k=None):
                """doc of f"""
                return body(a, b, k)
            cls = type('A', (), {'f': staticmethod(f)})
            call = f if sort == 'function' else cls().f
        if sort != 'class':
            c.expect('doc of f' in (f.__doc__ if not shift else cls.f.__doc__), 'the documentation is lost')

        def val():
            return rng.choice([1, 0, 'x', '', None, 2.5, 'ab'])

        def arr(n=None):
            n = rng.randint(0, 4) if n is None else n
            t = rng.choice([list, list, tuple, set])
            return t(val() for _ in range(n)) if t is not set else set(range(rng.randint(0, 9), 20)[:n])
        how = rng.choice(['array', 'array', 'scalar', 'named', 'both', 'both', 'one', 'sizes'] if second else ['array', 'array', 'scalar',
                                                                                                   'named', 'second'])
        kw = {'k': val()} if rng.random() < .4 else {}
        c.sig(sort, second, flat, how, rng.random())
        extra = []
        if how in ('array', 'both', 'one', 'sizes', 'second'):
            a = arr(rng.randint(1, 4) if how == 'both' else None)
        if how == 'array':
            if rng.random() < .5:
                extra = [val()]
            want = [(x, extra[0] if extra else 'dflt') for x in a]
            got = call(a, *extra, **kw)
            c.hit('mapped')
        elif how == 'second':    # the second argument is not to be gone through
            b = arr()
            want = [(x, b) for x in a]
            got = call(a, b, **kw)
            c.hit('mapped')
        elif how == 'both':
            b = arr(len(a))
            want = list(zip(a, b))
            got = call(a, b, **kw)
            c.hit('zipped')
        elif how == 'one':
            b = arr(1)
            want = [(x, list(b)[0]) for x in a]
            got = call(a, b, **kw)
            c.hit('broadcast')
        elif how == 'sizes':
            b = arr(len(a) + rng.choice([2, 3]))
            c.raises(lambda: call(a, b, **kw), 'arrays of %i and %i', len(a), len(b), kinds=InvalidValue)
            c.expect(not calls, 'the function is called with arrays of different sizes')
            c.hit('sizes')
            return
        else:
            s = rng.choice([val(), {'d': 1}, 'text', range(3)])
            b = rng.choice([[], [arr()]])
            if how == 'named':
                r = call(a=s, **kw)
                b = []
            else:
                r = call(s, *b, **kw)
            k = kw.get('k')
            b = b[0] if b else 'dflt'
            c.equal([x for x in calls if not shift or x is not me], [(s, b, k)], 'calls with a scalar')
            c.equal(r, ['%s/%s' % (s, b), k] if flat else '%s/%s/%s' % (s, b, k), 'result with a scalar')
            c.hit('scalars')
            return
        k = kw.get('k')
        if shift:
            c.expect(all(x is me for x in calls[::2]), 'the instance given to the method')
            calls = calls[1::2]
        c.equal(calls, [(x, y, k) for x, y in want], 'calls')
        if flat:
            c.equal(got, [i for x, y in want for i in ['%s/%s' % (x, y), k]], 'flattened results')
            c.hit('flattened')
        else:
            c.equal(got, ['%s/%s/%s' % (x, y, k) for x, y in want], 'results')

    # ------------------------------------------------------------------ assert_arg
    def good_bad(rng):
        return rng.choice([
            (Integer, dict(minimum=3), [(3, 3), ('4', 4), (5.0, 5), (10 ** 6, 10 ** 6)], [2, '1', 'x', -5, [1], {}]),
            (Integer, dict(), [(3, 3), ('-4', -4), (0, 0), ('0', 0)], ['x', '', [1], {}]),
            (Number, dict(maximum=10), [(3, 3), ('2.5', 2.5), (0, 0)], [11, '12.5', 'x', {}]),
            (String, dict(minLength=2, pattern='^[a-c]'), [('ab', 'ab'), ('bcd', 'bcd')], ['a', 'xyz', '']),
            (String, dict(maxLength=3), [('ab', 'ab'), (12, '12'), ('', '')], ['abcd', 12345]),
            (Boolean, dict(), [('true', True), ('false', False), (1, True), (False, False)], ['perhaps', 'x y']),
        ])

    @run.workload('asserted', quick=400, thorough=12000)
    def _(c):
        rng = c.rng
        typ, sch, goods, bads = good_bad(rng)
        sort = kind(c, rng)
        shift = 1 if sort in ('method', 'falsy', 'class', 'unbound') else 0
        pos = rng.randint(0, 2)
        names = ['a', 'b', 'd']
        by = rng.choice(['position', 'name', 'kwargs'])
        calls = []
        deco = assert_arg(pos + shift if by == 'position' else names[pos] if by == 'name' else 'extra', typ, **sch)
        if shift:
            def f(self, a, b=None, d='dflt', **kw):
                calls.append((self, (a, b, d, kw)))
                return len(calls)
            cls = type('A', (), {'f': classmethod(deco(f)) if sort == 'class' else deco(f),
                                 '__len__': (lambda self: 0) if sort == 'falsy' else (lambda self: 1)})
            obj = cls()
            call = {'method': obj.f, 'falsy': obj.f, 'class': cls.f, 'unbound': lambda *a, **k: cls.f(obj, *a, **k)}[sort]
            me = cls if sort == 'class' else obj
            c.hit('methods')
        else:
            me = None

            @deco
            def f(a, b=None, d='dflt', **kw):
                calls.append((None, (a, b, d, kw)))
                return len(calls)
            cls = type('A', (), {'f': staticmethod(f)})
            call = f if sort == 'function' else cls().f
        c.sig(sort, by, pos, typ.__name__, sorted(sch), rng.random())
        for _ in range(6):
            vals = ['other1', [2], {'o': 3}]
            extra = {}
            ok = rng.random() < .6
            v, w = rng.choice(goods) if ok else (rng.choice(bads), None)
            if by == 'kwargs':
                extra = {'extra': v}
                if rng.random() < .2:
                    ok, extra = True, {}
            else:
                vals[pos] = v
            n = rng.randint(0, 3)    # how many are given by position
            off = rng.random() < .2
            kw = dict(extra)
            for i in range(n, 3):
                kw[names[i]] = vals[i]
            omitted = by != 'kwargs' and pos > 0 and pos >= n and rng.random() < .2
            if omitted:
                del kw[names[pos]]
                ok = True
            if off:
                kw['assert_args'] = False
            del calls[:]
            c.log(n, kw, ok)
            if ok or off:
                r = call(*vals[:n], **kw)
                c.expect(r == 1 and len(calls) == 1, 'called %i times', len(calls))
                c.expect(calls[0][0] is me, 'the instance given')
                want = list(vals) + [dict(extra)]
                if omitted:
                    want[pos] = [None, None, 'dflt'][pos]
                    c.hit('untouched')
                elif off:
                    c.hit('untouched')
                elif by == 'kwargs' and extra:
                    want[3]['extra'] = w
                elif by != 'kwargs':
                    want[pos] = w
                got = list(calls[0][1])
                c.expect(got == want, 'arguments received are %r, expected %r', got, want)
                if not off and not omitted and (extra or by != 'kwargs'):
                    g = got[3]['extra'] if by == 'kwargs' else got[pos]
                    if typ is not Number:
                        c.expect(type(g) is type(w) or typ is Boolean and bool(g) == w, 'type of the argument %r', g)
                    c.hit('converted')
            else:
                c.raises(lambda: call(*vals[:n], **kw), 'invalid argument %r', v, kinds=(ValidationError, ConversionError, TypeError))
                c.expect(not calls, 'the function is called with an invalid argument')
                c.hit('refused')
            c.hit('asserted')

    # ------------------------------------------------------------------ assert_prop, depend_on_prop
    @run.workload('props', quick=250, thorough=5000)
    def _(c):
        rng = c.rng
        names = ['p', 'q', 'r']
        need = rng.sample(names, rng.randint(1, 3))
        calls = []

        class A:
            @assert_prop(*need)
            def f(self, *a, **k):
                calls.append((self, a, k))
                return 'result'

            @depend_on_prop(*need)
            def g(self, *a, **k):
                return (a, k)
        o = A()
        for n in names:
            v = rng.choice([MISSING, None, 0, '', False, [], 1, 'x'])
            if v is not MISSING:
                setattr(o, n, v)
        c.sig(need, vars(o))
        args, kw = tuple(rng.sample([1, None, 'a'], 2)), {'k': 1}
        if all(getattr(o, n, None) is not None for n in need):
            c.equal(o.f(*args, **kw), 'result', 'result')
            c.expect(len(calls) == 1 and calls[0][0] is o and calls[0][1:] == (args, kw), 'call %r', calls)
            c.hit('props')
        else:
            c.raises(lambda: o.f(*args, **kw), 'undefined property', kinds=AttributeError)
            c.expect(not calls, 'called with an undefined property')
            c.hit('undefined')
        c.expect(o.g(*args, **kw) == (args, kw), 'depend_on_prop changes the call')
        c.hit('props')

    # ------------------------------------------------------------------ memoized
    @run.workload('memoized', quick=150, thorough=5000)
    def _(c):
        rng = c.rng
        counts = []

        class A:
            def __init__(self, v):
                self.v = v

            @memoized_property
            def mp(self):
                """doc of mp"""
                counts.append((self.v, 'mp'))
                return rng.choice([None, 0, [self.v], (self.v, len(counts))])

            @memoized_property
            def mq(self):
                counts.append((self.v, 'mq'))
                if boom[0]:
                    raise Boom()
                return (self.v, len(counts))

            @memoized_method()
            def mm(self, a, b=2):
                """doc of mm"""
                counts.append((self.v, 'mm', a, b))
                if a == 'boom':
                    raise Boom()
                return (self.v, a, b, len(counts))

            @memoized_method(2)
            def mn(self, a):
                counts.append((self.v, 'mn', a))
                return (self.v, a, len(counts))

        class B(A):
            pass
        boom = [False]
        c.expect(isinstance(A.mp, memoized_property) and A.mp.__doc__ == 'doc of mp', 'the property seen from its class')
        c.expect(A.mm.__name__ == 'mm' and A.mm.__doc__ == 'doc of mm', 'name and documentation of a memoized method')
        objs = [rng.choice([A, B])(i) for i in range(3)]
        memo = [{} for _ in objs]
        c.sig(rng.random())
        for _ in range(30):
            i = rng.randrange(len(objs))
            o, m = objs[i], memo[i]
            op = rng.choice(['mp', 'mp', 'mq', 'mm', 'mm', 'mm', 'mn', 'reset', 'dead'])
            c.log(op, i)
            n = len(counts)
            if op in ('mp', 'mq'):
                boom[0] = op == 'mq' and rng.random() < .3
                if op == 'mq' and op not in m and boom[0]:
                    c.raises(lambda: o.mq, 'failed evaluation', kinds=Boom)
                    c.expect(len(counts) == n + 1, 'evaluated %i times', len(counts) - n)
                    continue
                v = getattr(o, op)
                c.expect(len(counts) == n + (op not in m), '%s evaluated %i times', op, len(counts) - n)
                if op in m:
                    c.expect(v is m[op], 'another value the second time')
                m[op] = v
                c.hit('memo_reads')
            elif op == 'reset':
                name = rng.choice(['mp', 'mq'])
                if rng.random() < .5:
                    memoized_property.reset(o, name)
                else:
                    getattr(type(o), name)._reset(o)
                m.pop(name, None)
                c.expect(len(counts) == n, 'evaluated by the reset')
                c.hit('memo_resets')
            elif op == 'mm':
                a = rng.choice([1, 'x', None, (1, 2), 'boom'])
                kw = rng.choice([{}, {'b': 2}, {'b': 5}])
                if a == 'boom':
                    c.raises(lambda: o.mm(a, **kw), 'failed method', kinds=Boom)
                    c.expect(len(counts) == n + 1, 'a failed call is remembered')
                    continue
                v = o.mm(a, **kw)
                key = (a, kw.get('b', 2))
                c.equal(v[:3], (o.v,) + key, 'result of a memoized method')
                k2 = ('mm', a, tuple(kw.items()))
                c.expect(len(counts) == n + (k2 not in m), 'memoized method called %i times', len(counts) - n)
                if k2 in m:
                    c.expect(v is m[k2], 'another result for the same arguments')
                m[k2] = v
                c.hit('memo_calls')
            elif op == 'mn':
                a = rng.randint(0, 3)
                v = o.mn(a)
                c.equal(v[:2], (o.v, a), 'result of a memoized method')
                recent = m.setdefault('recent', [])
                hit = [x for x in recent if x[0] == a]
                c.expect(len(counts) == n + (not hit), 'the two last calls are remembered, called %i times', len(counts) - n)
                if hit:
                    c.expect(v is hit[0][1], 'another result for the same arguments')
                    recent.remove(hit[0])
                recent.append((a, v))
                del recent[:-2]
                c.hit('memo_calls')
            elif op == 'dead' and rng.random() < .06:
                # memoized members do not keep their object alive
                x = A(99)
                x.mm(1), x.mp, x.mn(2)
                w = weakref.ref(x)
                held = x.mm, x.mn    # once called, these are the memories and not bound methods
                del x
                for _ in range(3):
                    gc.collect()
                c.expect(w() is None, 'a memoized member keeps its object alive')
                del held
                c.hit('dead')

    # ------------------------------------------------------------------ class properties
    @run.workload('classproperties', quick=80, thorough=2000)
    def _(c):
        rng = c.rng

        class A:
            _v = rng.randint(0, 9)

            @classproperty
            def v(cls):
                return (cls.__name__, cls._v)

            @v.setter
            def v(cls, value):
                cls._v = value

            @classproperty
            def ro(cls):
                return cls._v

        class B(A):
            _v = rng.randint(10, 19)

        class C(B):
            pass
        vals = {A: A._v, B: B._v}
        c.sig(vals[A], vals[B], rng.random())
        for _ in range(10):
            k = rng.choice([A, B, C])
            if rng.random() < .3:
                x = rng.randint(20, 99)
                k().v = x
                vals[k] = x
                c.hit('class_sets')
            elif rng.random() < .2:
                c.raises(lambda: setattr(k(), 'ro', 1), 'read only class property', kinds=AttributeError)
            for k in (A, B, C):
                w = vals.get(k, vals[B])
                c.equal(k.v, (k.__name__, w), 'class property of the class')
                c.equal(k().v, (k.__name__, w), 'class property of an instance')
                c.equal(k.ro, w, 'class property')
                c.hit('class_reads')

    # ------------------------------------------------------------------ logs
    @run.workload('logs', quick=250, thorough=5000)
    def _(c):
        """logged functions are called once, with their arguments, and their results and errors are unchanged"""
        rng = c.rng
        calls, messages = [], []

        class Logger:
            def __getattr__(self, level):
                return lambda *a, **k: messages.append((level, a))
        err = rng.choice([None, Boom('why'), KeyError('k'), ValueError()])
        result = object()

        def body(*a, **k):
            calls.append((a, k))
            if err is not None:
                raise err
            return result
        with_logger = rng.random() < .5
        attrs = {'_logger': Logger()} if with_logger else {}
        sort = rng.choice(['method', 'function', 'init', 'property'])
        args, kw = tuple(rng.sample([1, 'a', None, {}], rng.randint(0, 3))), rng.choice([{}, {'x': 1}])
        c.sig(sort, with_logger, err, args, kw, rng.random())
        if sort == 'method':
            o = type('A', (), dict(attrs, f=log_exceptions(lambda self, *a, **k: body(*a, **k))))()
            call = o.f
        elif sort == 'function':
            call = log_exceptions(body)
        elif sort == 'property':
            args, kw = (), {}
            o = type('A', (), dict(attrs, f=property(log_exceptions(lambda self: body()))))()
            call = lambda: o.f
        else:
            result = None
            k = type('A', (), dict(attrs, __init__=log_init(lambda self, *a, **k: body(*a, **k))))
            call = lambda *a, **kw: k(*a, **kw) and None
        if err is None:
            r = call(*args, **kw)
            c.expect(r is result, 'result %r', r)
        else:
            got = c.raises(lambda: call(*args, **kw), 'the error of the function', kinds=type(err))
            c.expect(got is err, 'another error than the one raised')
            c.hit('errors')
            if with_logger and sort != 'function':
                c.expect(any(m[0] == 'error' for m in messages), 'the error has not been logged')
        c.equal(calls, [(args, kw)], 'calls')
        c.hit('logged')


MISSING = object()
