# -*- coding: utf-8 -*-
"""P25 - contexts: names are looked up from the innermost map to the outermost one, and every view of a context agrees."""
import collections
from collections.abc import Mapping

from harness import gen

NAMES = ['a', 'b', 'c', 'this', 'x1', 'name', '_p', 'A', 'd', 'e']
MISSING = object()


class Plain(Mapping):
    """a mapping of the user, neither a dict nor a context"""

    def __init__(self, **d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Marked(Plain):
    pass


class Model:
    """what a context should be: a list of maps, each a dict, a Plain, None or another Model"""

    def __init__(self, maps):
        self.maps = list(maps)

    def flat(self):
        r = []
        for m in self.maps:
            r.extend(m.flat() if isinstance(m, Model) else [m])
        return r

    def merged(self):
        r = {}
        for m in self.maps:
            for k, v in (m.merged() if isinstance(m, Model) else (m or {})).items():
                r.setdefault(k, v)
        return r

    def order(self):
        r = []
        for m in self.maps:
            for k in (m.order() if isinstance(m, Model) else (m or {})):
                if k not in r:
                    r.append(k)
        return r

    def rorder(self):
        r = []
        for m in reversed(self.maps):
            for k in (m.rorder() if isinstance(m, Model) else (m or {})):
                if k not in r:
                    r.append(k)
        return r


def register(run):
    from ngoschema.utils.utils import Context, ReadOnlyChainMap
    run.rule = 'a distinct non-trivial case is a history of at least 15 operations over several contexts of several maps'
    run.assumptions = ['the maps are not modified while a context is being iterated']
    run.require(lookups=20000, shadowed=1500, missing=3000, children=300, added=300, mutated=100, nested=500, found=400,
                found_reverse=400, none_maps=100, unchanged=300, entered=60, parents=300, moved=60)

    class Real:
        def __init__(self, ctx, model):
            self.ctx, self.model = ctx, model

    def maps(c, pool, shared):
        """a few real maps and their models"""
        rng = c.rng
        r, m = [], []
        for _ in range(rng.randint(0, 3)):
            k = rng.random()
            if k < .45:
                d = {n: (n, rng.random()) for n in rng.sample(NAMES, rng.randint(0, 4))}
                d = rng.choice([dict, collections.OrderedDict])(d)
                shared.append(d)
                r.append(d), m.append(d)
            elif k < .65:
                d = rng.choice([Plain, Marked])(**{n: (n, rng.random()) for n in rng.sample(NAMES, rng.randint(0, 3))})
                r.append(d), m.append(d)
            elif k < .72:
                r.append(None), m.append(None)
                c.hit('none_maps')
            elif pool:
                x = rng.choice(pool)
                r.append(x.ctx), m.append(x.model)
                c.hit('nested')
            if shared and rng.random() < .2:
                d = rng.choice(shared)
                r.append(d), m.append(d)
        return r, m

    def judge(c, x):
        ctx, mod = x.ctx, x.model
        want = mod.merged()
        flat = mod.flat()
        for n in NAMES + ['nope', '']:
            c.hit('lookups')
            if n in want:
                c.expect(n in ctx, '%r is not in the context', n)
                c.expect(ctx[n] is want[n], '%r is %r, expected %r', n, ctx[n], want[n])
                c.expect(ctx.get(n, MISSING) is want[n], 'get %r', n)
                c.hit('shadowed', sum(n in (m or ()) for m in flat) > 1)
            else:
                c.expect(n not in ctx, '%r is in the context', n)
                c.raises(lambda: ctx[n], 'absent %r', n, kinds=KeyError)
                c.expect(ctx.get(n, MISSING) is MISSING, 'get %r', n)
                c.hit('missing')
        c.equal(list(ctx), mod.order(), 'names in order')
        c.equal(list(ctx.keys()), mod.order(), 'names in order')
        c.equal(list(ctx.reversed_keys()), mod.rorder(), 'names in reverse order')
        c.expect(len(ctx) == len(want), 'length %i, expected %i', len(ctx), len(want))
        c.equal(dict(ctx), want, 'content')
        c.equal(dict(ctx.items()), want, 'items')
        c.equal(dict(ctx.merged), want, 'merged')
        c.expect(ctx == want and not (ctx == dict(want, other=1)), 'equality with its content')
        mf = [m for m in ctx.maps_flattened if m]
        c.expect(not any(isinstance(m, ReadOnlyChainMap) for m in mf), 'a flattened map is a context')
        c.equal([dict(m) for m in mf], [dict(m) for m in flat if m], 'flattened maps')
        str(ctx), repr(ctx)
        c.state(tuple(sorted(want)), len(flat))

    @run.workload('history', quick=110, thorough=8000)
    def _(c):
        rng = c.rng
        pool, shared = [], []
        n = rng.randint(15, 30)
        c.sig(n, rng.random())
        for step in range(n):
            op = rng.choice(['new', 'chain', 'child', 'child', 'prepend', 'append', 'mutate', 'enter', 'find', 'new_child'])
            if not pool and op not in ('new', 'chain'):
                op = 'new'
            c.log(op)
            before = [(x.ctx, x.model.merged()) for x in pool]
            moved = None
            local = {k: (k, rng.random()) for k in rng.sample(NAMES, rng.randint(0, 3)) if rng.random() < .6}
            r, m = maps(c, pool, shared)
            x = rng.choice(pool) if pool else None
            if op == 'new':
                pool.append(Real(Context(*r, **local), Model([dict(local)] + m)))
            elif op == 'chain':
                pool.append(Real(ReadOnlyChainMap(*r), Model(m)))
            elif op == 'new_child':
                pool.append(Real(x.ctx.new_child(*r, **local), Model([dict(local)] + m + x.model.maps)))
                c.hit('children')
            elif isinstance(x.ctx, Context) and op == 'child':
                ch = x.ctx.create_child(*r, **local)
                if not r and not local:
                    c.equal(dict(ch), x.model.merged(), 'a child without anything of its own')
                else:
                    pool.append(Real(ch, Model([dict(local)] + m + x.model.maps)))
                    c.hit('children')
            elif isinstance(x.ctx, Context) and op in ('prepend', 'append'):
                def holds(mod):
                    return mod is x.model or any(holds(i) for i in mod.maps if isinstance(i, Model))
                for rr, mm in zip(r, m):
                    if isinstance(mm, Model) and holds(mm):
                        continue   # a context inside itself
                    getattr(x.ctx, op)(rr)
                    if op == 'prepend':
                        x.model.maps.insert(0, mm)
                    else:
                        x.model.maps.append(mm)
                    c.hit('added')
                moved = x
            elif op == 'mutate' and shared:
                d = rng.choice(shared)
                k = rng.choice(NAMES)
                if k in d and rng.random() < .4:
                    del d[k]
                else:
                    d[k] = (k, rng.random())
                moved = 'all'
                c.hit('mutated')
            elif isinstance(x.ctx, Context) and op == 'enter':
                # a with statement works on a copy of the context
                with x.ctx as inner:
                    c.expect(dict(inner) == x.model.merged(), 'entered context')
                    inner.prepend({'a': 'inner', 'only': 1})
                    c.expect(inner['a'] == 'inner', 'added inside')
                c.expect('only' not in x.ctx, 'what is added in the with statement stays after')
                c.hit('entered')
            elif isinstance(x.ctx, Context) and op == 'find':
                for cls in (Plain, Marked, dict, collections.OrderedDict, Context, Mapping):
                    cand = [a for a in x.ctx.maps if isinstance(a, cls)]
                    c.expect(x.ctx.find_instance(cls) is (cand[0] if cand else None), 'first %s', cls)
                    c.expect(x.ctx.find_instance(cls, MISSING, reverse=True) is (cand[-1] if cand else MISSING), 'last %s', cls)
                    c.hit('found')
                    c.hit('found_reverse')
                    if cand:
                        ex = rng.choice(cand)
                        rest = [a for a in cand if a is not ex]
                        c.expect(x.ctx.find_instance(cls, MISSING, exclude=ex) is (rest[0] if rest else MISSING),
                                 'first %s but one', cls)
                        c.expect(x.ctx.find_instance(cls, exclude=ex, reverse=True) is (rest[-1] if rest else None),
                                 'last %s but one', cls)
            # the other contexts see the changes made in the maps they hold, and nothing else
            for y in pool:
                judge(c, y)
            if moved is None:
                for ctx, b in before:
                    c.equal(dict(ctx), b, 'a context nothing was done to')
                    c.hit('unchanged')
            else:
                c.hit('moved')

    LEAF = {'type': 'object', 'properties': {'n': {'type': 'integer'}}}
    MID = {'type': 'object', 'additionalProperties': True,
           'properties': {'leaf': LEAF, 'leaves': {'type': 'array', 'items': LEAF}}}
    TOP = {'type': 'object', 'properties': {'mid': MID, 'mids': {'type': 'array', 'items': MID}, 'n': {'type': 'integer'}},
           'patternProperties': {'^p_': MID}}

    @run.workload('parents', quick=60, thorough=2000)
    def _(c):
        """every object held, however it got there, has its holder as parent and the outermost one as root"""
        rng = c.rng
        Top = gen.pclass(TOP, gen.uid(c, 'Top'), 'Top')
        c.sig(rng.random())

        def leaf():
            return {'n': rng.randint(0, 9)} if rng.random() < .8 else {}

        def mid():
            d = {}
            if rng.random() < .7:
                d['leaf'] = leaf()
            if rng.random() < .7:
                d['leaves'] = [leaf() for _ in range(rng.randint(0, 3))]
            return d

        def top():
            d = {'mid': mid(), 'mids': [mid() for _ in range(rng.randint(0, 3))]}
            for i in range(rng.randint(0, 2)):
                d['p_%i' % i] = mid()
            return d

        def check_leaf(x, holder, root):
            c.expect(x._parent is holder, 'the parent of a leaf is not its holder')
            c.expect(x._root is root, 'the root of a leaf is not the outermost object')
            c.hit('parents')

        def check_mid(x, root):
            c.expect(x._parent is root, 'the parent is not the holder')
            c.expect(x._root is root, 'the root is not the holder')
            c.hit('parents')
            if x.leaf is not None:
                check_leaf(x.leaf, x, root)
            for i in x.leaves:
                check_leaf(i, x, root)

        def check(o):
            c.expect(o._parent is None and o._root is o, 'an object held by nobody has a parent')
            if o.mid is not None:
                check_mid(o.mid, o)
            for i in o.mids:
                check_mid(i, o)
            for k in list(o):
                if k.startswith('p_'):
                    check_mid(o[k], o)
        tops = [rng.choice([lambda: Top(top()), lambda: Top(**top()), lambda: Top()])() for _ in range(2)]
        for _ in range(rng.randint(4, 10)):
            o = rng.choice(tops)
            op = rng.choice(['mid', 'mids', 'item', 'append', 'leaf', 'leaves', 'lappend', 'pattern', 'update'])
            c.log(op)
            if op == 'mid':
                o.mid = mid()
            elif op == 'mids':
                o['mids'] = [mid() for _ in range(rng.randint(0, 3))]
            elif op == 'append':
                o.mids.append(mid())
            elif op == 'item' and len(o.mids):
                o.mids[rng.randrange(len(o.mids))] = mid()
            elif op == 'leaf' and o.mid is not None:
                o.mid.leaf = leaf()
            elif op == 'leaves' and len(o.mids):
                rng.choice(list(o.mids)).leaves = [leaf(), leaf()]
            elif op == 'lappend' and o.mid is not None:
                o.mid.leaves.append(leaf())
            elif op == 'pattern':
                o['p_%i' % rng.randint(0, 3)] = mid()
            elif op == 'update':
                o.update(top())
            for x in tops:
                check(x)
