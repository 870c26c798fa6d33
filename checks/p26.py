# -*- coding: utf-8 -*-
"""P26 - registries and the dictionaries which ignore the case or the spelling of keys are faithful mappings."""
import gc
from urllib.parse import urlsplit

from harness import gen

MISSING = object()


class Thing:
    pass


class CallableThing:
    def __call__(self):
        return 'called'


def register(run):
    from ngoschema.utils.utils import (CaseInsensitiveDict, UriDict, Registry, WeakRegistry, GenericClassRegistry)
    run.rule = 'a distinct non-trivial case is a history of at least 20 operations on mappings of one sort'
    run.assumptions = ['a key unregistered from a registry is still in its parents, or in none of them']
    run.require(absent=80, defaults=130, deleted=1, dict_ops=20, overwritten=3, respelled=80)

    words = ['Alpha', 'beta', 'GAMMA', 'a', 'A b', 'x1', '\u00c9t\u00e9', '', 'Zz', 'zZ9']
    hosts = ['http://Host.org/a', 'HTTP://host.org/b', 'https://h.org/A/b?q=1', 'urn:Some:Thing', 'file:///Tmp/x.json', 'rel/Path.json',
             'http://host.org/a#/$defs/One', 'rel/Path.json#Frag', 'urn:Some:Thing#/X']

    def respell(rng, sort, k):
        k = rng.choice([k, k.upper(), k.lower(), k.swapcase(), k.title()])
        if sort is UriDict and rng.random() < .3 and '#' not in k:
            k += '#'
        return k

    def judge(c, d, model, keys, spell, norm):
        rng = c.rng
        c.expect(len(d) == len(model), 'length %i, expected %i', len(d), len(model))
        c.expect(sorted(map(repr, (norm(k) for k in d))) == sorted(map(repr, model)), 'keys %r, expected %r', list(d), list(model))
        c.equal({norm(k): v for k, v in d.items()}, model, 'items')
        c.expect(sorted(map(id, d.values())) == sorted(map(id, model.values())), 'values')
        for k in keys:
            s = spell(k)
            c.hit('respelled', s != k)
            n = norm(k)
            if n in model:
                c.expect(s in d, '%r is absent', s)
                c.expect(d[s] is model[n], '%r is not what was set', s)
                c.expect(d.get(s, MISSING) is model[n], 'get %r', s)
            else:
                c.expect(s not in d, '%r is present', s)
                c.raises(lambda: d[s], 'absent %r', s, kinds=KeyError)
                c.expect(d.get(s) is None and d.get(s, MISSING) is MISSING, 'get absent %r', s)
                c.hit('absent')
            c.hit('defaults')

    @run.workload('dicts', quick=100, thorough=6000)
    def _(c):
        rng = c.rng
        sort = rng.choice([CaseInsensitiveDict, UriDict])
        keys = rng.sample(words if sort is CaseInsensitiveDict else hosts, 6)
        if sort is CaseInsensitiveDict:
            norm = lambda k: k.lower()
        else:
            norm = lambda k: urlsplit(k).geturl().lower()
        spell = lambda k: respell(rng, sort, k)
        init = {}
        for k in rng.sample(keys, rng.randint(0, 3)):
            init[k] = object()
        d = sort(init) if rng.random() < .5 else sort(list(init.items()))
        model = {norm(k): v for k, v in init.items()}
        c.sig(sort.__name__, keys, rng.random())
        judge(c, d, model, keys, spell, norm)
        other = sort()
        for _ in range(rng.randint(20, 40)):
            op = rng.choice(['set', 'set', 'del', 'pop', 'update', 'setdefault', 'popitem', 'clear', 'badd'])
            k = rng.choice(keys)
            s, n, v = spell(k), norm(k), object()
            c.log(op, s)
            c.hit('dict_ops')
            if op == 'set':
                c.hit('overwritten', n in model)
                d[s] = v
                model[n] = v
            elif op == 'del':
                if n in model:
                    del d[s]
                    del model[n]
                    c.hit('deleted')
                else:
                    c.raises(lambda: d.__delitem__(s), 'deleting absent %r', s, kinds=KeyError)
            elif op == 'pop':
                got = d.pop(s, MISSING)
                c.expect(got is model.pop(n, MISSING), 'pop %r', s)
            elif op == 'update':
                d.update({s: v})
                model[n] = v
            elif op == 'setdefault':
                c.expect(d.setdefault(s, v) is model.setdefault(n, v), 'setdefault %r', s)
            elif op == 'popitem' and model and rng.random() < .3:
                kk, vv = d.popitem()
                c.expect(model.pop(norm(kk), MISSING) is vv, 'popitem')
            elif op == 'clear' and rng.random() < .2:
                d.clear()
                model.clear()
            judge(c, d, model, keys, spell, norm)
            c.expect(len(other) == 0, 'another dictionary of the same class has been modified')

    @run.workload('registries', quick=160, thorough=6000)
    def _(c):
        rng = c.rng
        keys = ['k%i' % i for i in range(4)] + [('t', 1), 7]
        def chain(x):
            out = [x]
            for p in x[2]:
                out.extend(chain(p))
            return out
        # registries and their parents: what is registered in one is registered in its parents, and theirs
        regs = []
        n = rng.randint(2, 4)
        for i in range(n):
            ps = rng.sample(regs, rng.randint(0, min(2, len(regs))))
            if len(ps) == 2 and any(a is b for a in chain(ps[0]) for b in chain(ps[1])):
                ps = ps[:1]    # each parent is reached once
            r = Registry(*[p[0] for p in ps])
            regs.append((r, {}, ps))
        c.sig(n, rng.random())

        for _ in range(rng.randint(20, 40)):
            x = rng.choice(regs)
            k = rng.choice(keys)
            v = object()
            c.hit('registry_ops')
            up = chain(x)
            if rng.random() < .65:
                c.log('register', regs.index(x), k)
                c.hit('overwritten', k in x[1])
                x[0].register(k, v)
                for y in up:
                    y[1][k] = v
                c.hit('parents', len(up) - 1)
            elif all(k in y[1] for y in up):
                c.log('unregister', regs.index(x), k)
                x[0].unregister(k)
                for y in up:
                    del y[1][k]
                c.hit('deleted')
            elif k not in x[1]:
                c.raises(lambda: x[0].unregister(k), 'unregistering the absent %r', k, kinds=KeyError)
            for y in regs:
                judge(c, y[0], y[1], keys, lambda k: k, lambda k: k)

    @run.workload('weak', quick=12, thorough=3000)
    def _(c):
        rng = c.rng
        r = WeakRegistry()
        alive = {}
        keys = ['k%i' % i for i in range(8)]
        c.sig(rng.random())
        for _ in range(rng.randint(10, 20)):
            k = rng.choice(keys)
            if rng.random() < .6:
                o = rng.choice([Thing, CallableThing])()
                r.register(k, o)
                alive[k] = o
                del o
            elif k in alive:
                c.log('drop', k)
                del alive[k]
                c.hit('weak_dead')
            if rng.random() < .3:
                for _ in range(3):
                    gc.collect()
                c.expect(sorted(r) == sorted(alive), 'registered %r, alive %r', sorted(r), sorted(alive))
                c.expect(len(r) == len(alive), 'length')
                for k in keys:
                    if k in alive:
                        c.expect(k in r and r[k] is alive[k] and r.get(k) is alive[k], '%s is not what was registered', k)
                        c.hit('weak_alive')
                    else:
                        c.expect(k not in r and r.get(k, MISSING) is MISSING, '%s is still there', k)
                        c.raises(lambda: r[k], 'dead %s', k, kinds=KeyError)

    @run.workload('classes', quick=80, thorough=3000)
    def _(c):
        rng = c.rng
        regs = [GenericClassRegistry() for _ in range(2)]
        models = [{} for _ in regs]
        c.sig(rng.random())
        for i in range(rng.randint(10, 20)):
            j = rng.randrange(2)
            r, m = regs[j], models[j]
            name = 'N%i' % rng.randint(0, 5)
            if rng.random() < .5:
                f = type(name, (), {})
            else:
                f = lambda: None
                f.__name__ = name
            given = rng.choice([None, 'alias%i' % rng.randint(0, 2), 0, ''])
            got = r.register(given)(f) if given is not None or rng.random() < .5 else r.register()(f)
            c.expect(got is f, 'the decorated class or function is replaced')
            m[name if given is None else given] = f
            c.hit('classes')
            for r, m in zip(regs, models):
                c.equal(dict(r), m, 'registered')
                for k in ['N%i' % i for i in range(6)] + ['alias0', 'alias1', 0, '', 'none']:
                    c.expect(r.contains(k) == (k in m) == (k in r), 'contains %r', k)
                    c.expect(r.get(k) is m.get(k), 'get %r', k)
                    c.expect(r.get(k, MISSING) is m.get(k, MISSING), 'get %r with a default', k)
                    if k in m:
                        c.expect(r[k] is m[k], 'item %r', k)
                    c.hit('defaults')
