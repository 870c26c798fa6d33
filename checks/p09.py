# -*- coding: utf-8 -*-
"""P09 - all the names and access paths of a property agree."""
from harness import gen
from harness.objmodel import Spec, KInt, KNum, same, plain


def register(run):
    run.rule = 'a distinct non-trivial case is a (class with aliases and translated names, history of writes by random names) or a (tree, path)'
    run.assumptions = ['schema names, translated names and aliases of one class do not collide', 'names contain no dot and no bracket']
    run.require(agree=2000, negated=150, alias=150, translated=150, path=500, wrong_path=100, path_set=60, inherited=20, constructed=60)

    def negate(v):
        return None if v is None else -v

    def reads(c, a, name):
        out = {'item': lambda: a[name], 'get': lambda: a.get(name)}
        if name.isidentifier():
            out['attr'] = lambda: getattr(a, name)
        return out

    def check_all(c, a, spec, want):
        for k, w in want.items():
            for name, neg in spec.names(k).items():
                ways = reads(c, a, name)
                how = c.rng.choice(list(ways))
                got = ways[how]()
                w2 = negate(w) if neg else w
                c.expect(same(got, w2), '%s %r of property %r reads %r, expected %r', how, name, k, got, w2)
                c.expect(name in a, '%r, name of %r, is not in the object', name, k)
                c.hit('agree')
                c.hit('negated' if neg else 'alias' if name in spec.aliases else 'translated' if name != k else 'agree')

    @run.workload('names', quick=90, thorough=2500)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, lazy=rng.choice([None, None, True, False]), additional=rng.choice([None, False]))
        A = spec.build(rng)
        if rng.random() < .5:
            # a base class instance is used first, with names that only mean something to the subclass
            P = A
            extra = {'al_extra': rng.choice(list(spec.kinds))}
            num = [k for k, t in spec.kinds.items() if t.name in ('integer', 'number')]
            sch = {'aliases': dict(extra)}
            if num:
                sch['negatedAliases'] = {'neg_extra': rng.choice(num)}
            r0, w0 = spec.initial(rng)
            p = P(**r0)
            if spec.additional is None:
                p['al_extra'] = 'free'
                p['neg_extra'] = 'free'
                c.equal((p['al_extra'], p.al_extra, p['neg_extra']), ('free', 'free', 'free'), 'additional property of the base class')
            else:
                c.raises(lambda: p['al_extra'], 'undeclared name of the base class', kinds=KeyError)
            A = gen.pclass(sch, gen.uid(c), 'Child', bases=(A,))
            check_all(c, p, spec, w0)
            spec.aliases.update(extra)
            spec.negated.update(sch.get('negatedAliases', {}))
            c.hit('inherited')
        raw, want = spec.initial(rng)
        # construction by random names
        given = {}
        for k, v in raw.items():
            name = rng.choice(list(spec.names(k).items()))
            if name[1]:
                v = -want[k]
            given[name[0]] = v
        c.sig(str(sorted(spec.names(k) for k in spec.kinds) if 0 else [sorted(spec.names(k)) for k in spec.kinds]), str(given))
        c.log('construct', given)
        copy = dict(given)
        a = A(**given) if rng.random() < .5 else A(given)
        c.equal(given, copy, 'the construction changed the data of the caller')
        c.hit('constructed')
        check_all(c, a, spec, want)
        for _i in range(rng.randint(3, 8)):
            k = rng.choice(list(spec.kinds))
            t = spec.kinds[k]
            name, neg = rng.choice(list(spec.names(k).items()))
            v = t.typed(rng)
            r = t.raw(rng, v)
            if neg:
                r = -v
            way = rng.choice(['item', 'attr', 'update'])
            c.log('set', name, way, r)
            if way == 'attr' and name.isidentifier():
                setattr(a, name, r)
            elif way == 'update':
                a.update({name: r})
            else:
                a[name] = r
            want[k] = v
            check_all(c, a, spec, want)
        c.expect(set(a) == set(spec.kinds), 'the object lists %r, declared %r', sorted(a), sorted(spec.kinds))

    # -- access paths

    def tree_class(c, rng, depth):
        """a random class of nested objects and arrays -> schema, data, {path: value}"""
        names = rng.sample(['q', 'size', 'full name', 'n-b', 'z9', 'kind'], rng.randint(2, 4))
        props, data, leaves = {}, {}, {}
        aliases, negated = {}, {}
        for i, k in enumerate(names):
            tn = [k] if ' ' not in k and '-' not in k else [k, ''.join('_' if x == '-' else x for x in k if x != ' ')]
            if rng.random() < .3:
                aliases['al%i_%i' % (depth, i)] = k
                tn.append('al%i_%i' % (depth, i))
            kind = rng.choice(['int', 'ints', 'obj', 'objs', 'grid'] if depth else ['int', 'ints', 'int', 'grid'])
            if kind == 'int':
                props[k] = {'type': 'integer'}
                data[k] = rng.randint(0, 99)
                for n in tn:
                    leaves[n] = data[k]
                if rng.random() < .4:
                    negated['neg%i_%i' % (depth, i)] = k
                    leaves['neg%i_%i' % (depth, i)] = -data[k]
            elif kind == 'ints':
                props[k] = {'type': 'array', 'items': {'type': 'integer'}}
                data[k] = [rng.randint(0, 99) for _ in range(rng.randint(1, 3))]
                for n in tn:
                    leaves[n] = data[k]
                    for j, v in enumerate(data[k]):
                        leaves['%s[%i]' % (n, j)] = v
                    leaves['%s[-1]' % n] = data[k][-1]
            elif kind == 'grid':
                props[k] = {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer'}}}
                data[k] = [[rng.randint(0, 99) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(1, 2))]
                for n in tn:
                    for x, row in enumerate(data[k]):
                        for y, v in enumerate(row):
                            leaves['%s[%i][%i]' % (n, x, y)] = v
            else:
                m = 1 if kind == 'obj' else rng.randint(1, 3)
                sch, d0, l0 = tree_class(c, rng, depth - 1)
                rows = [(d0, l0)]
                while len(rows) < m:
                    d, l = refill(rng, sch)
                    rows.append((d, l))
                if kind == 'obj':
                    props[k] = dict(sch, type='object')
                    data[k] = d0
                    for n in tn:
                        for p, v in l0.items():
                            leaves['%s.%s' % (n, p)] = v
                else:
                    props[k] = {'type': 'array', 'items': dict(sch, type='object')}
                    data[k] = [d for d, l in rows]
                    for n in tn:
                        for j, (d, l) in enumerate(rows):
                            for p, v in l.items():
                                leaves['%s[%i].%s' % (n, j, p)] = v
        sch = {'properties': props}
        if aliases:
            sch['aliases'] = aliases
        if negated:
            sch['negatedAliases'] = negated
        return sch, data, leaves

    def refill(rng, sch):
        """other data for the same schema"""
        d, leaves = {}, {}
        for k, s in sch['properties'].items():
            tn = [k] if ' ' not in k and '-' not in k else [k, ''.join('_' if x == '-' else x for x in k if x != ' ')]
            tn += [n for n, r in sch.get('aliases', {}).items() if r == k]
            if s['type'] == 'integer':
                d[k] = rng.randint(0, 99)
                for n in tn:
                    leaves[n] = d[k]
                for n, r in sch.get('negatedAliases', {}).items():
                    if r == k:
                        leaves[n] = -d[k]
            elif s['type'] == 'object':
                d[k], l = refill(rng, s)
                for n in tn:
                    for p, v in l.items():
                        leaves['%s.%s' % (n, p)] = v
            elif s['items']['type'] == 'integer':
                d[k] = [rng.randint(0, 99)]
                for n in tn:
                    leaves['%s[0]' % n] = d[k][0]
            elif s['items']['type'] == 'object':
                x, l = refill(rng, s['items'])
                d[k] = [x]
                for n in tn:
                    for p, v in l.items():
                        leaves['%s[0].%s' % (n, p)] = v
            else:
                d[k] = [[rng.randint(0, 99)]]
                for n in tn:
                    leaves['%s[0][0]' % n] = d[k][0][0]
        return d, leaves

    @run.workload('paths', quick=45, thorough=1200)
    def _(c):
        rng = c.rng
        sch, data, leaves = tree_class(c, rng, 2)
        sch = {'properties': {'root': dict(sch, type='object'), 'top': {'type': 'integer'}}}
        lazy = rng.choice([None, True, False])
        if lazy is not None:
            sch['lazyLoading'] = lazy
        A = gen.pclass(sch, gen.uid(c))
        top = rng.randint(0, 99)
        a = A(root=data, top=top)
        paths = list(leaves)
        if len(paths) > 40:
            paths = rng.sample(paths, 40)
        c.sig(str(sorted(leaves))[:400])
        for p in paths:
            c.log('path', p)
            got = a['root.' + p]
            c.expect(same(got, leaves[p]), 'path root.%s reads %r, expected %r', p, got, leaves[p])
            got = a.get('root.' + p)
            c.expect(same(got, leaves[p]), 'get of path root.%s gives %r, expected %r', p, got, leaves[p])
            c.expect('root.' + p in a, 'path root.%s is not in the object', p)
            got = a['.root.' + p]
            c.expect(same(got, leaves[p]), 'path .root.%s reads %r, expected %r', p, got, leaves[p])
            if '.' in p:
                # from an inner object: relative paths and paths to the parents
                head = p[:p.rindex('.')]
                node, tail = a['root.' + head] if '[' not in head.split('.')[-1] else None, p[p.rindex('.') + 1:]
                if node is not None:
                    got = node['.' + tail]
                    c.expect(same(got, leaves[p]), 'path .%s from root.%s reads %r, expected %r', tail, head, got, leaves[p])
            c.hit('path')
        r = a.root
        c.equal(r['..top'], top, 'path ..top from the nested object')
        # wrong paths
        for p in rng.sample(paths, min(len(paths), 6)):
            if '[' in p:
                i = p.rindex('[')
                if p[i + 1] == '-':
                    continue
                w = p[:i] + '[%i]' % rng.randint(5, 9) + p[p.index(']', i) + 1:]
                c.raises(lambda: a['root.' + w], 'index out of range in root.%s', w, kinds=KeyError)
                c.equal(a.get('root.' + w, 'dft'), 'dft', 'get of the wrong path root.%s', w)
                c.expect('root.' + w not in a, 'the wrong path root.%s is in the object', w)
                c.hit('wrong_path')
            if isinstance(leaves[p], int):
                c.raises(lambda: a['root.%s.more' % p], 'a path below the number root.%s', p, kinds=KeyError)
                c.hit('wrong_path')
        # writes by wrong paths are refused and change nothing
        for p in rng.sample(paths, min(len(paths), 6)):
            before = plain(a.root)
            if '[' in p and p[p.rindex('[') + 1] != '-':
                i = p.rindex('[')
                w = p[:i] + '[%i]' % rng.randint(5, 9) + p[p.index(']', i) + 1:]
                c.raises(lambda: a.__setitem__('root.' + w, 5), 'writing by an index out of range in root.%s', w)
            if isinstance(leaves[p], int):
                c.raises(lambda: a.__setitem__('root.%s.more' % p, 5), 'writing below the number root.%s', p)
                c.hit('wrong_write')
            c.expect(plain(a.root) == before, 'a refused write by a path leaves %r, it was %r', plain(a.root), before)
        # writes, seen by every other path
        for p in rng.sample(paths, min(len(paths), 6)):
            if not isinstance(leaves[p], int):
                continue
            v = rng.randint(100, 999)
            before = plain(a.root)
            old = leaves[p]
            way = rng.choice(['path', 'step', 'relative'])
            c.log('set', p, way, v)
            if way == 'path':
                a['root.' + p] = v
            elif way == 'relative':
                a['.root.' + p] = v
            else:
                # step by step
                cur, last = a.root, None
                steps = []
                for part in p.split('.'):
                    n, *idx = part.split('[')
                    steps.append(n)
                    steps += [int(x.rstrip(']')) for x in idx]
                for s in steps[:-1]:
                    cur = cur[s]
                cur[steps[-1]] = v
            got = a['root.' + p]
            c.expect(got == v, 'path root.%s reads %r after %r was assigned by %s', p, got, v, way)
            # nothing else changed: putting the old value back restores the whole tree
            a['root.' + p] = old
            c.expect(same(a.root, before), 'an assignment to root.%s by %s and back left %r instead of %r', p, way, plain(a.root), before)
            c.hit('path_set')
