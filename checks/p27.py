# -*- coding: utf-8 -*-
"""P27 - collection utilities: dependency order, class linearization, paths, nested iteration, pages, filters, brackets."""
import collections
import copy
import itertools

from harness import gen


def register(run):
    from ngoschema.utils import utils as U
    run.rule = 'a distinct non-trivial case is a generated graph, class hierarchy, nested collection or bracketed text'
    run.assumptions = ['keys of nested collections are text without dots and brackets', 'closing brackets have an opening one']
    run.require(levels=500, cycles=80, selfdeps=80, extras=80, linearized=100, inconsistent=20, common=180, leaves=1500, pages=500,
                filtered=500, kept=200, excluded=200, descendants=1500, absent=500, indices=300, visited=1500, brackets=300,
                enclosed=200, replaced=200)

    @run.workload('dependencies', quick=500, thorough=15000)
    def _(c):
        rng = c.rng
        n = rng.randint(0, 9)
        nodes = rng.sample(rng.choice([['n%i' % i for i in range(12)], ['', 'a', 'A', ' ', '0', 'b', 'None', 'c', 'd']]), n)
        pos = {x: i for i, x in enumerate(nodes)}
        data = {}
        for x in rng.sample(nodes, len(nodes)):
            before = nodes[:pos[x]]
            data[x] = set(rng.sample(before, rng.randint(0, min(3, len(before)))))
            if rng.random() < .15:
                data[x].add(x)
                c.hit('selfdeps')
            if rng.random() < .1:
                data[x].add('' if '' not in nodes and rng.random() < .4 else 'extra%i' % rng.randint(0, 1))
                c.hit('extras')
        cyclic = n > 1 and rng.random() < .25
        if cyclic:
            cyc = rng.sample(nodes, rng.randint(2, min(4, n)))
            for a, b in zip(cyc, cyc[1:] + cyc[:1]):
                data[a].add(b)
        b = copy.deepcopy(data)
        c.sig(sorted((k, sorted(v)) for k, v in data.items()))
        if cyclic:
            c.raises(lambda: list(U.topological_sort(data)), 'cyclic dependencies')
            c.equal(data, b, 'the dependencies')
            c.hit('cycles')
            return
        got = [set(x) for x in U.topological_sort(data)]
        c.equal(data, b, 'the dependencies')
        every = set(data) | set().union(*data.values()) if data else set()
        c.equal(sorted(itertools.chain(*got)), sorted(every), 'each node once')
        level = {x: i for i, l in enumerate(got) for x in l}
        for x in every:
            deps = data.get(x, set()) - {x}
            want = max([level[y] for y in deps]) + 1 if deps else 0
            c.expect(level[x] == want, '%s is at level %i, its dependencies %r at %r', x, level[x], deps, [level[y] for y in deps])
            c.hit('levels')

    @run.workload('classes', quick=300, thorough=10000)
    def _(c):
        rng = c.rng
        ks = [object]
        for i in range(rng.randint(2, 9)):
            for _ in range(5):
                bases = rng.sample(ks[1:], min(len(ks) - 1, rng.randint(1, 3))) or [object]
                try:
                    ks.append(type('K%i' % i, tuple(bases), {}))
                    break
                except TypeError:
                    pass
        bases = rng.sample(ks, rng.randint(1, min(3, len(ks))))
        c.sig([[b.__name__ for b in k.__mro__] for k in ks], [b.__name__ for b in bases])
        try:
            want = type('New', tuple(bases), {}).__mro__[1:]
        except TypeError:
            want = None
        if want is None:
            c.raises(lambda: U.mro(*bases), 'inconsistent hierarchy of %r', bases, kinds=TypeError)
            c.hit('inconsistent')
        else:
            c.expect(tuple(U.mro(*bases)) == want, 'linearization is %r, expected %r', U.mro(*bases), want)
            c.hit('linearized')
        k = rng.choice(ks)
        c.expect(tuple(U.mro(k)) == k.__mro__, 'linearization of one class')
        some = rng.sample(ks, rng.randint(1, min(3, len(ks))))
        g = U.gcs(*some)
        c.expect(all(issubclass(x, g) for x in some), '%r is not a base of all of %r', g, some)
        # the first one in the linearization of the first class
        c.expect(g is next(x for x in some[0].__mro__ if all(issubclass(y, x) for y in some)), 'greatest common superclass %r', g)
        c.hit('common')

    KEYS = ['a', 'b', 'c1', 'D', 'e_f', '0', 'x y', '\u00e9']

    def nested(rng, depth=0):
        k = rng.random()
        if depth >= 4 or depth and k < .3:
            return rng.choice([0, 1, None, '', 'text', 'a', False, 2.5])
        if depth and k < .55:
            return [nested(rng, depth + 1) for _ in range(rng.randint(0, 3))]
        t = rng.choice([dict, collections.OrderedDict])
        return t((n, nested(rng, depth + 1)) for n in rng.sample(KEYS, rng.randint(1, 4)))

    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        return v

    @run.workload('collections', quick=500, thorough=15000)
    def _(c):
        rng = c.rng
        d = nested(rng)
        before = copy.deepcopy(d)
        c.sig(d)
        # leaves of nested dictionaries
        sep = rng.choice(['.', '/', '->', ''])

        def leaves(d, pre=()):
            for k, v in d.items():
                if isinstance(v, dict):
                    yield from leaves(v, pre + (k,))
                else:
                    yield pre + (k,), v
        want = [(sep.join(p), v) for p, v in leaves(d)]
        got = list(U.nested_dict_iter(d, sep))
        c.expect(len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want)),
                 'leaves %r, expected %r', got, want)
        if sep == '.':
            c.equal(list(U.nested_dict_iter(d)), want, 'leaves')
        c.hit('leaves', len(want))
        # paths
        for _ in range(6):
            path, v = [], d
            while isinstance(v, (dict, list)) and v and (not path or rng.random() < .8):
                k = rng.choice(list(v)) if isinstance(v, dict) else rng.randrange(-len(v), len(v))
                path.append(k)
                v = v[k]
            text = ''
            for k in path:
                text += '[%i]' % k if isinstance(k, int) else ('.' if text else '') + k
            c.equal(U.split_path(text), path, 'path %s', text)
            c.expect(U.get_descendant(d, path) is v, 'descendant %s', text)
            c.expect(U.get_descendant(d, list(path)) is v, 'descendant %s', text)
            c.expect(U.get_descendant(d, text) is v, 'descendant %s', text)
            c.hit('descendants')
            c.hit('indices', any(isinstance(k, int) for k in path))
            bad = path + [rng.choice(['zz', 99])]
            c.expect(U.get_descendant(d, bad) is None, 'absent descendant %r', bad)
            c.expect(U.get_descendant(d, bad + ['a', 'b']) is None, 'absent descendant %r', bad)
            c.hit('absent')
        # every element is visited once, with its container
        seen = []
        U.apply_through_collection(d, lambda coll, key, level, mark: seen.append((coll, key, level, mark)), mark=7)

        def visit(coll, level=0):
            for k in coll if isinstance(coll, dict) else range(len(coll)):
                yield coll, k, level
                if isinstance(coll[k], (dict, list)):
                    yield from visit(coll[k], level + 1)
        want = list(visit(d))
        c.expect(len(seen) == len(want) and all(a[0] is b[0] and a[1] == b[1] and a[2] == b[2] and a[3] == 7 for a, b in zip(seen, want)),
                 'elements visited')
        c.hit('visited', len(want))
        seen = []
        U.apply_through_collection(d, lambda coll, key, level: seen.append(key), recursive=False)
        c.equal(seen, list(d), 'elements visited at the first level')
        # and can be replaced

        def double(coll, key, level):
            if isinstance(coll[key], (int, float)) and not isinstance(coll[key], bool):
                coll[key] = coll[key] * 2 + 1

        def doubled(v):
            if isinstance(v, dict):
                return {k: doubled(x) for k, x in v.items()}
            if isinstance(v, list):
                return [doubled(x) for x in v]
            return v * 2 + 1 if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        e = copy.deepcopy(d)
        U.apply_through_collection(e, double)
        c.equal(plain(e), doubled(plain(d)), 'replaced elements')
        c.hit('replaced')
        # filters
        only, but = (tuple(rng.sample(KEYS, rng.randint(0, 4))) for _ in range(2))
        rec = rng.random() < .5

        def filtered(v, top=True):
            if isinstance(v, dict):
                return {k: filtered(x, False) if rec else x for k, x in v.items() if not (only and k not in only or k in but)}
            if isinstance(v, list) and (rec or top):
                return [filtered(x, top) for x in v]
            return v
        arg = rng.choice([d, [d, nested(rng)]])
        argb = copy.deepcopy(arg)
        got = U.filter_collection(arg, only, but, rec)
        c.equal(plain(got), plain(filtered(plain(arg))), 'filtered by %r but %r', only, but)
        c.equal(arg, argb, 'the collection filtered')
        c.hit('filtered')
        c.hit('kept', bool(only))
        c.hit('excluded', bool(but))
        c.equal(d, before, 'the collection')
        # pages and lists
        seq = list(range(rng.randint(0, 20)))
        n = rng.randint(1, 6)
        c.equal(list(U.grouper(n, iter(seq))), [seq[i:i + n] for i in range(0, len(seq), n)], 'pages of %i', n)
        c.hit('pages')
        x = rng.choice([None, 1, 'abc', [1], (1, 2), collections.deque([1]), {'a': 1}, [], {1}])
        lx = U.to_list(x, 'dflt')
        c.equal(lx, 'dflt' if x is None else list(x) if isinstance(x, (list, tuple, collections.deque)) else [x], 'list of %r', x)
        c.equal(U.to_none_single_list(x), None if x is None or lx == [] else lx[0] if len(lx) == 1 else lx, 'reduced %r', x)
        c.expect(U.is_mapping(x) == isinstance(x, dict) and U.is_sequence(x) == isinstance(x, (list, tuple, collections.deque))
                 and U.is_collection(x) == isinstance(x, (list, tuple, collections.deque, dict, set))
                 and U.is_string(x) == isinstance(x, str), 'sort of %r', x)

    @run.workload('brackets', quick=500, thorough=15000)
    def _(c):
        rng = c.rng
        br = rng.choice(['()', '[]', '{}', '<>'])

        def text(depth=0):
            out = []
            for _ in range(rng.randint(0, 4)):
                if depth < 4 and rng.random() < .5:
                    out.append(br[0] + text(depth + 1) + br[1])
                else:
                    out.append(rng.choice(['a', 'f', ' ', ',', 'xyz'] + [b for b in '([{<>}])' if b not in br]))
            return ''.join(out)
        t = text()
        c.sig(t, br)
        # pairs of characters of any kind, which might overlap
        s = ''.join(rng.choice('()[]a') for _ in range(rng.randint(4, 14)))
        any_ = [U.Bracket(s, (i, j), x) for x in '([' for i in range(len(s)) for j in range(i + 1, len(s))
                if s[i] == x and s[j] == {'(': ')', '[': ']'}[x]]
        for x in rng.sample(any_, min(5, len(any_))):
            for y in any_:
                c.expect(bool(x.is_in(y)) == (y._pos[0] < x._pos[0] and x._pos[1] < y._pos[1]), '%r in %r of %r', x._pos, y._pos, s)
                c.hit('overlaps')
        stack, pairs = [], []
        for i, ch in enumerate(t):
            if ch == br[0]:
                stack.append(i)
            elif ch == br[1]:
                pairs.append((stack.pop(), i))
        which = rng.choice([br[0], br[1]])
        got = U.Bracket.find_brackets(t, which)
        c.equal(sorted(tuple(b._pos) for b in got), sorted(pairs), 'brackets of %r', t)
        c.hit('brackets')
        for b in got:
            c.equal(b.content(), t[b._pos[0] + 1:b._pos[1]], 'content')
            for o in got:
                inside = o._pos[0] < b._pos[0] and b._pos[1] < o._pos[1]
                c.expect(bool(b.is_in(o)) == inside, '%r in %r', b._pos, o._pos)
                c.hit('enclosed', inside)
        first = U.Bracket.find_closing_bracket(t, which)
        outer = sorted(p for p in pairs if not any(q[0] < p[0] and p[1] < q[1] for q in pairs))
        if outer:
            a, b = outer[0]
            c.equal((tuple(first[0]), first[1]), ((a, b), t[a + 1:b]), 'first closed bracket of %r', t)
        else:
            c.expect(first is None, 'closing bracket found in %r', t)
