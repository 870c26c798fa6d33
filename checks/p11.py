# -*- coding: utf-8 -*-
"""P11 - defaults: what an unset property reads, and what is left out of the serialization."""
from harness import gen
from harness.objmodel import Spec, SCALARS, KArr, KInt, KStr, KDate, KBool, KNum, same, plain, RAW_NAMES


def register(run):
    run.rule = 'a distinct non-trivial case is a (chain of classes with defaults, history of instances)'
    run.assumptions = ['defaults are valid values of the declared type', 'None is never given explicitly', 'defaults of whole objects are not covered']
    run.require(unset=1000, attribute=60, inherited=100, falsy=80, mutated=60, omitted=300, literal=300)

    def falsy(t):
        return {'integer': 0, 'string': '', 'boolean': False, 'array': []}.get(t.name)

    @run.workload('chain', quick=60, thorough=3000)
    def _(c):
        rng = c.rng
        kinds, dft = {}, {}
        classes = []
        names = rng.sample([k for k in RAW_NAMES if k != '@id'], rng.randint(4, 9))
        todo = list(names)
        levels = rng.randint(1, 4)
        cls = None

        def trans(name):
            return ''.join('_' if x == '-' else x for x in name.split(':')[-1] if x.isalnum() or x in '-_')

        def value(t):
            z = falsy(t)
            if z is not None and rng.random() < .25 and (t.name != 'integer' or t.lo <= 0 <= t.hi):
                return z
            return t.typed(rng)

        def raw_default(t, v):
            return v.isoformat() if t.name == 'date' else list(v) if t.name == 'array' else v

        for lv in range(levels):
            mixin = None
            if cls and todo and rng.random() < .4:
                # a second parent, whose properties are its own
                mix = [todo.pop() for _ in range(min(len(todo), rng.randint(1, 2)))]
                mprops = {}
                for k in mix:
                    kinds[k] = rng.choice(SCALARS + [KArr])(rng)
                    mprops[k] = dict(kinds[k].schema)
                    if rng.random() < .6:
                        dft[k] = value(kinds[k])
                        mprops[k]['default'] = raw_default(kinds[k], dft[k])
                c.log('mixin', lv, str(mprops))
                mixin = gen.pclass({'type': 'object', 'properties': mprops}, gen.uid(c, 'M%i' % lv), 'M%i' % lv)
                c.hit('inherited')
            mine = [todo.pop() for _ in range(min(len(todo), rng.randint(1, 4)))]
            again = [k for k in kinds if rng.random() < .2]
            props, attrs = {}, {}
            for k in mine + again:
                t = kinds[k] = kinds.get(k) or rng.choice(SCALARS + [KArr])(rng)
                s = props[k] = dict(t.schema)
                dft.pop(k, None)
                if rng.random() < .55:
                    dft[k] = value(t)
                    s['default'] = raw_default(t, dft[k])
            for k in kinds:
                if rng.random() < .25:
                    # the default comes from an attribute of the class
                    dft[k] = value(kinds[k])
                    attrs[trans(k)] = dft[k] if rng.random() < .5 or kinds[k].name == 'array' else raw_default(kinds[k], dft[k])
                    c.hit('attribute')
            sch = {'type': 'object', 'properties': props}
            if rng.random() < .3:
                sch['lazyLoading'] = rng.random() < .5
            c.log('class', lv, str(props), str(attrs))
            bases = (cls,) + ((mixin,) if mixin else ()) if cls else ()
            cls = gen.pclass(sch, gen.uid(c, 'L%i' % lv), 'L%i' % lv, bases=bases, **attrs)
            classes.append((cls, dict(dft), dict(kinds)))
            if rng.random() < .5:
                # instances of a class before its subclasses are defined
                check_unset(c, *classes[-1])
        c.sig(str([(d, sorted(k)) for _c, d, k in classes]))
        for x in classes + [rng.choice(classes)]:
            check_unset(c, *x)
            if levels > 1:
                c.hit('inherited', len(x[2]))
        for _i in range(4):
            history(c, *rng.choice(classes))
        for x in classes:
            check_unset(c, *x)

    def unset(kinds, dft, k):
        return dft[k] if k in dft else kinds[k].unset

    def check_unset(c, cls, dft, kinds):
        rng = c.rng
        a = cls() if rng.random() < .6 else cls({}) if rng.random() < .5 else cls(lazyLoading=rng.random() < .5)
        ks = list(kinds)
        rng.shuffle(ks)
        for k in ks:
            got = rng.choice([lambda: a[k], lambda: a.get(k), lambda: dict(a)[k]])()
            c.expect(same(got, unset(kinds, dft, k)), 'property %s of %s with default %r was not given and reads %r', k, kinds[k].schema,
                     dft.get(k, '(none)'), plain(got))
            c.hit('unset')
        got = a.do_serialize()
        bad = [k for k in got if k in kinds]
        c.expect(not bad, 'an object holding nothing is serialized as %r', got)
        return a

    def history(c, cls, dft, kinds):
        rng = c.rng
        want, raw = {}, {}
        given = set()
        for k, t in kinds.items():
            if rng.random() < .4:
                z = falsy(t)
                v = t.typed(rng)
                if z is not None and rng.random() < .5 and (t.name != 'integer' or t.lo <= 0 <= t.hi):
                    v = z
                    c.hit('falsy')
                if rng.random() < .2 and k in dft:
                    v = dft[k]
                want[k], raw[k] = v, t.raw(rng, v)
                given.add(k)
            else:
                want[k] = unset(kinds, dft, k)
        c.log('construct', raw)
        a = cls(raw) if rng.random() < .5 else cls(**raw)
        other = cls(dict(raw))
        twin = {k: (list(v) if isinstance(v, list) else v) for k, v in want.items()}
        for _i in range(rng.randint(1, 5)):
            k = rng.choice(list(kinds))
            t = kinds[k]
            if t.name == 'array' and rng.random() < .7:
                v = t.item.typed(rng)
                c.log('append', k, v)
                a[k].append(v)
                want[k] = list(want[k]) + [v]
                c.hit('mutated')
            else:
                z = falsy(t)
                v = dft[k] if k in dft and rng.random() < .3 else t.typed(rng)
                if z is not None and rng.random() < .5 and (t.name != 'integer' or t.lo <= 0 <= t.hi):
                    v = z
                    c.hit('falsy')
                c.log('set', k, v)
                a[k] = t.raw(rng, v)
                want[k] = list(v) if isinstance(v, list) else v
            for k in kinds:
                c.expect(same(a[k], want[k]), 'property %s with default %r reads %r, expected %r', k, dft.get(k, '(none)'), plain(a[k]), want[k])
                c.expect(same(other[k], twin[k]), 'property %s of another instance became %r, it was %r', k, plain(other[k]), twin[k])
        # what equals the default is left out, everything else is there
        got = a.do_serialize()
        for k, t in kinds.items():
            d = dft[k] if k in dft else [] if t.name == 'array' else t.unset
            w = want[k]
            if w is None or same(w, d):
                c.expect(k not in got, 'property %s equal to its default %r is serialized as %r', k, d, got.get(k))
                c.hit('omitted')
            else:
                c.expect(k in got, 'property %s is %r, default %r, and is not serialized: %r', k, w, d, got)
        back = cls(got)
        for k in kinds:
            c.expect(same(back[k], want[k]), 'property %s read back from the serialization %r is %r, expected %r', k, got, plain(back[k]), want[k])
        full = a.do_serialize(no_defaults=False)
        c.expect(set(kinds) <= set(full), 'the serialization with defaults lacks %r', sorted(set(kinds).difference(full)))

    @run.workload('literals', quick=50, thorough=1000)
    def _(c):
        """defaults that are expressions or templates of other properties"""
        rng = c.rng
        d = rng.randint(1, 9)
        m = rng.randint(2, 5)
        own = {'n': {'type': 'integer', 'default': d}, 'word': {'type': 'string', 'default': 'w%i' % d},
               'twice': {'type': 'integer', 'default': '`n*%i' % m},
               'label': {'type': 'string', 'default': '{{word}}-{{n}}'},
               'chain': {'type': 'integer', 'default': '`twice+1'}}
        keys = list(own)
        rng.shuffle(keys)
        A = gen.pclass({'properties': {k: own[k] for k in keys}}, gen.uid(c, 'A'), 'A')
        B = gen.pclass({'type': 'object', 'properties': {'more': {'type': 'string'}}}, gen.uid(c, 'B'), 'B', bases=(A,), n=d + 20)
        c.sig(d, m, str(keys))
        lit = {'twice': lambda e: e['n'] * m, 'label': lambda e: '%s-%i' % (e['word'], e['n']), 'chain': lambda e: e['twice'] + 1}
        for cls, n0 in ((A, d), (B, d + 20)):
            env = {'n': n0, 'word': 'w%i' % d}
            a = cls() if rng.random() < .5 else cls(lazyLoading=rng.random() < .5)
            over = {}

            def verify():
                e = dict(env)
                for k in ('twice', 'label', 'chain'):
                    e[k] = over[k] if k in over else lit[k](e)
                ks = list(e)
                rng.shuffle(ks)
                for k in ks:
                    c.equal(a[k], e[k], 'property %s with literal defaults, %r given, on %r', k, over, env)
                    c.hit('literal')
            verify()
            for _i in range(6):
                k = rng.choice(['n', 'word', 'twice', 'label', 'n'])
                c.log('set', k)
                if k == 'n':
                    a.n = env['n'] = rng.randint(0, 40)
                elif k == 'word':
                    a.word = env['word'] = gen.word(rng)
                elif k == 'twice':
                    a.twice = over['twice'] = rng.choice([0, rng.randint(1, 9)])
                else:
                    a.label = over['label'] = rng.choice(['', gen.word(rng)])
                verify()
            b = cls()
            env, over, a = {'n': n0, 'word': 'w%i' % d}, {}, b
            verify()

    @run.workload('nested', quick=40, thorough=600)
    def _(c):
        """defaults inside nested objects and arrays of objects"""
        rng = c.rng
        q, w = rng.randint(0, 9), rng.choice(['', 'k', 'word'])
        l = [rng.randint(0, 5) for _ in range(rng.randint(1, 3))]
        o = {'type': 'object', 'properties': {'q': {'type': 'integer', 'default': q}, 'w': {'type': 'string', 'default': w},
                                              'l': {'type': 'array', 'items': {'type': 'integer'}, 'default': list(l)},
                                              'free': {'type': 'array', 'items': {'type': 'integer'}}}}
        A = gen.pclass({'properties': {'o': o, 'os': {'type': 'array', 'items': o}}}, gen.uid(c))
        base = {'q': q, 'w': w, 'l': l, 'free': []}
        a, b = A(o={}, os=[{}, {}]), A(o={'q': q + 1}, os=[{'w': w + 'x'}, {'l': []}])
        c.sig(q, w, str(l))

        def verify(what):
            c.expect(same(a.o, base) and same(a.os, [base, base]), '%s: defaults read %r and %r, expected %r', what, plain(a.o), plain(a.os), base)
            c.expect(same(b.o, dict(base, q=q + 1)), '%s: %r', what, plain(b.o))
            c.expect(same(b.os, [dict(base, w=w + 'x'), dict(base, l=[])]), '%s: %r', what, plain(b.os))
        verify('new')
        x = A(o={}, os=[{}])
        x.o.l.append(7)
        x.o.free.append(8)
        x.os[0].l.insert(0, 5)
        x.o.q = q + 5
        c.hit('mutated', 3)
        verify('after changing another instance')
        x.os.append({})
        c.expect(same(x.os[1], base) and same(x.o, dict(base, q=q + 5, l=l + [7], free=[8])), 'changed instance reads %r and %r', plain(x.o), plain(x.os))
        s = x.do_serialize()
        c.expect(set(s['o']) == {'q', 'l', 'free'} and set(s['os'][0]) == {'l'} and not s['os'][1], 'serialization %r', s)
        c.hit('omitted', 3)
