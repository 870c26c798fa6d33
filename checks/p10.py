# -*- coding: utf-8 -*-
"""P10 - objects are mappings: every history of mapping operations behaves as it does on a dictionary."""
from harness import gen
from harness.objmodel import Spec, same, plain


def register(run):
    run.rule = 'a distinct non-trivial case is a (class, history of at least 10 mapping operations)'
    run.assumptions = ['keys are schema names or additional names', 'no value is None once assigned']
    run.require(step=500, contents=500, missing=50, deleted=60, equal=80, different=80, additional=60, update=40)

    def contents(c, a, want, model_keys, what):
        """the whole mapping interface agrees with the model"""
        ks = list(a)
        c.expect(len(ks) == len(set(ks)) and set(ks) == set(want), '%s: keys are %r, expected %r', what, sorted(map(str, ks)), sorted(want))
        c.equal(len(a), len(want), '%s: length', what)
        c.equal(list(a.keys()), ks, '%s: keys()', what)
        vs = list(a.values())
        its = list(a.items())
        c.expect([k for k, v in its] == ks and len(vs) == len(ks), '%s: items() lists %r, keys %r', what, its, ks)
        for (k, v), v2 in zip(its, vs):
            c.expect(same(v, want[k]), '%s: items() gives %r for %s, expected %r', what, v, k, want[k])
            c.expect(same(v2, want[k]), '%s: values() gives %r for %s, expected %r', what, v2, k, want[k])
        for k in model_keys:
            c.expect((k in a) is (k in want), '%s: %s in object is %r', what, k, k in a)
            if k in want:
                c.expect(same(a[k], want[k]), '%s: %s reads %r, expected %r', what, k, a[k], want[k])
            else:
                c.raises(lambda: a[k], '%s: missing %s read', what, k, kinds=KeyError)
                c.equal(a.get(k), None, '%s: get of missing %s', what, k)
                c.equal(a.get(k, 'dft'), 'dft', '%s: get of missing %s with a default', what, k)
        c.hit('contents')

    @run.workload('history', quick=90, thorough=2500)
    def _(c):
        rng = c.rng
        extra = rng.random() < .6
        spec = Spec(c, rng, aliases=False, lazy=rng.choice([None, None, True, False]), additional=None if extra else False)
        A = spec.build(rng)
        raw, want = spec.initial(rng)
        extras = ['more', 'other', 'x9'] if extra else []
        for k in extras:
            if rng.random() < .4:
                raw[k] = want[k] = rng.choice([7, 'txt', [1, 2], {'k': 1}])
        c.sig(str(raw), extra)
        c.log('construct', raw)
        a = A(raw) if rng.random() < .5 else A(**raw)
        universe = list(spec.kinds) + extras + ['never']

        def value(k):
            if k in extras:
                v = rng.choice([rng.randint(0, 9), gen.word(rng), [1, rng.randint(0, 9)]])
                return v, v
            v = spec.kinds[k].typed(rng)
            return spec.kinds[k].raw(rng, v), v

        contents(c, a, want, universe, 'new object')
        for _i in range(rng.randint(10, 18)):
            k = rng.choice(list(spec.kinds) + extras * 2)
            op = rng.choice(['set', 'set', 'update', 'del', 'pop', 'popd', 'setdefault', 'missing', 'get', 'kwupdate', 'itemsupdate'])
            c.log(op, k)
            if op == 'set':
                r, v = value(k)
                a[k] = r
                want[k] = v
            elif op in ('update', 'kwupdate', 'itemsupdate'):
                ks = rng.sample(list(spec.kinds) + extras, rng.randint(1, 3))
                if op == 'kwupdate':
                    ks = [x for x in ks if x.isidentifier()]
                d = {x: value(x) for x in ks}
                rd = {x: r for x, (r, v) in d.items()}
                if op == 'update':
                    a.update(rd)
                elif op == 'kwupdate':
                    a.update(**rd)
                else:
                    a.update(list(rd.items()))
                want.update({x: v for x, (r, v) in d.items()})
                c.hit('update')
            elif op in ('del', 'pop', 'popd'):
                if k in spec.required:
                    continue
                if k in want:
                    if op == 'del':
                        del a[k]
                    else:
                        got = a.pop(k) if op == 'pop' else a.pop(k, 'dft')
                        c.expect(same(got, want[k]), '%s of %s gives %r, expected %r', op, k, got, want[k])
                    del want[k]
                    c.hit('deleted')
                elif op == 'popd':
                    c.equal(a.pop(k, 'dft'), 'dft', 'pop of missing %s with a default', k)
                    c.hit('missing')
                else:
                    c.raises(lambda: a.__delitem__(k) if op == 'del' else a.pop(k), '%s of missing %s', op, k, kinds=KeyError)
                    c.hit('missing')
            elif op == 'setdefault':
                r, v = value(k)
                got = a.setdefault(k, r)
                if k in want:
                    c.expect(same(got, want[k]), 'setdefault of present %s gives %r, it is %r', k, got, want[k])
                else:
                    want[k] = v
            elif op == 'missing':
                c.raises(lambda: a['never'], 'missing key read', kinds=KeyError)
                c.raises(lambda: a.__delitem__('never'), 'missing key deleted', kinds=KeyError)
                c.equal(a.pop('never', 4), 4, 'missing key popped with a default')
                c.hit('missing')
            else:
                got = a.get(k, 'dft')
                w = want.get(k)
                c.expect(same(got, 'dft' if w is None else w), 'get of %s gives %r, expected %r', k, got, w)
            if k in extras:
                c.hit('additional')
            c.hit('step')
            if rng.random() < .6:
                contents(c, a, want, universe, 'after %s of %s' % (op, k))
        contents(c, a, want, universe, 'the end')
        # equality
        b = A()
        for k in list(b):
            if k not in want and k not in spec.required:
                del b[k]
        order = [k for k in want if want[k] is not None]
        rng.shuffle(order)
        for k in order:
            b[k] = want[k]
        skip = [k for k in want if want[k] is None and not (k in b and b[k] is None)]
        if not skip:
            c.expect(a == b and b == a and not a != b, 'objects of equal contents differ: %r and %r', dict(a), dict(b))
            c.expect(a == dict(b) and dict(b) == a, 'an object differs from the dictionary of its contents %r', dict(b))
            c.hit('equal')
            k = rng.choice([k for k in spec.kinds])
            t = spec.kinds[k]
            v = t.typed(rng)
            for _j in range(30):
                if k not in want or not same(v, want[k]):
                    break
                v = t.typed(rng)
            else:
                return
            was = want.get(k)
            b[k] = v
            c.expect(not a == b and a != b, 'objects that differ by %s (%r, %r) are equal', k, was, v)
            c.expect(not a == dict(b), 'an object equals a dictionary that differs by %s', k)
            c.hit('different')
            d = dict(a)
            if d:
                d.pop(rng.choice(list(d)))
                c.expect(not a == d, 'an object equals a dictionary with one key less')
            c.expect(not a == None and a != 5 and not a == [1], 'an object equals something that is not a mapping')

    @run.workload('nested', quick=40, thorough=600)
    def _(c):
        """equality sees the inside of nested objects and arrays"""
        rng = c.rng
        S = {'properties': {'o': {'type': 'object', 'properties': {'q': {'type': 'integer'}, 'l': {'type': 'array', 'items': {'type': 'integer'}}}},
                            'os': {'type': 'array', 'items': {'type': 'object', 'properties': {'q': {'type': 'integer'}}}}}}
        A = gen.pclass(S, gen.uid(c))

        def data():
            return {'o': {'q': rng.randint(0, 3), 'l': [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]},
                    'os': [{'q': rng.randint(0, 3)} for _ in range(rng.randint(1, 3))]}
        x = data()
        y = data() if rng.random() < .3 else {'o': {'q': x['o']['q'], 'l': list(x['o']['l'])}, 'os': [dict(d) for d in x['os']]}
        k = rng.random()
        if k < .2:
            y['o']['q'] += 1
        elif k < .4:
            y['o']['l'][-1] += 1
        elif k < .6:
            y['os'][-1]['q'] += 1
        elif k < .7:
            y['os'].append({'q': 1})
        a, b = A(x), A(y)
        if rng.random() < .5:
            plain(a)
        if rng.random() < .5:
            plain(b)
        c.sig(str(x), str(y))
        c.expect((a == b) is (x == y), '%r == %r is %r', x, y, a == b)
        c.expect((b == a) is (x == y), '%r == %r is %r', y, x, b == a)
        c.expect((a != b) is (x != y), '%r != %r is %r', x, y, a != b)
        c.hit('equal' if x == y else 'different')
        c.equal(plain(a), x, 'contents')
