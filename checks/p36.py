# -*- coding: utf-8 -*-
"""P36 - canonical names: the names of the instances which hold one, resolved back to it, at any time."""
from harness import gen


def register(run):
    from ngoschema.models.instances import Instance
    run.rule = 'a distinct non-trivial case is a tree of at least 4 instances modified at least 6 times'
    run.assumptions = ['instances have a name, without dots nor colons, different from those of attributes',
                       'instances are held by the objects which built them']
    run.require(nodes=1331, names=2667, holders=1222, resolved=1222, values=982, absent=1222, renamed=92, replaced=25,
                appended=16, removed=2, printed=2667, same_names=5, ambiguous=5, between=516, items=861, from_inside=319, by_name=117)
    names = ['a', 'b', 'n1', 'Pump', 'tank_2', 'x y', 'été', 'Z', 'k-1', 'left', 'right', '7', 'q', 'w0', 'main', 'aux']

    class Node:
        def __init__(self, name, v, cls):
            self.name, self.v, self.cls = name, v, cls
            self.slots = {}      # c, d -> Node; cs -> [Node]; plain -> {x: Node}

        def children(self):
            """(access, node), access being the keys from the instance"""
            for k in ('c', 'd'):
                if self.slots.get(k):
                    yield [k], self.slots[k]
            for i, n in enumerate(self.slots.get('cs') or []):
                yield ['cs', i], n
            if self.slots.get('plain'):
                yield ['plain', 'x'], self.slots['plain']
            for i, n in enumerate(self.slots.get('plains') or []):
                yield ['plains', i, 'x'], n

        def walk(self, holders=()):
            yield holders, self
            for a, n in self.children():
                yield from n.walk(holders + ((self, a), ))

        def used(self):
            return {n.name for _, n in self.children()}

        def data(self):
            d = {'name': self.name}
            if self.v is not None:
                d['v'] = self.v
            for k, x in self.slots.items():
                if k == 'cs':
                    d[k] = [n.data() for n in x]
                elif k == 'plain':
                    d[k] = {'x': x.data(), 'y': 1}
                elif k == 'plains':
                    d[k] = [{'x': n.data()} for n in x]
                else:
                    d[k] = x.data()
            return d

    def classes(c):
        rng = c.rng
        ia, ib = gen.uid(c, 'A'), gen.uid(c, 'B')
        other = rng.random() < .6
        def props(own, oth):
            r = {'$ref': own}
            o = {'$ref': oth}
            return {'v': {'type': 'integer'}, 'c': dict(r), 'd': dict(o), 'cs': {'type': 'array', 'items': dict(rng.choice([r, o]))},
                    'plain': {'type': 'object', 'properties': {'x': dict(rng.choice([r, o])), 'y': {'type': 'integer'}}},
                    'plains': {'type': 'array', 'items': {'type': 'object', 'properties': {'x': dict(r)}}}}
        attrs = {}
        if rng.random() < .3:
            attrs['_attributeByName'] = True
        if rng.random() < .3:
            attrs['_lazyLoading'] = True
        if other:
            # the second class first: it is the one whose definition is complete
            pb = props(ib, ib)
            B = gen.pclass({'type': 'object', 'properties': pb}, id=ib, bases=(Instance, ), name='B', **attrs)
            A = gen.pclass({'type': 'object', 'properties': props(ia, ib)}, id=ia, bases=(Instance, ), name='A', **attrs)
        else:
            A = gen.pclass({'type': 'object', 'properties': props(ia, ia)}, id=ia, bases=(Instance, ), name='A', **attrs)
        return A, attrs

    def fresh(c, holder):
        # a few siblings have the same name, which is then the name of any of them
        used = holder.used() if holder and c.rng.random() < .9 else set()
        c.hit('same_names', bool(holder) and not used)
        n = c.rng.choice([x for x in names if x not in used])
        return n

    def grow(c, depth, holder=None):
        rng = c.rng
        n = Node(fresh(c, holder), rng.choice([None, 1, 2, 0, 15]), None)
        if depth:
            for k in rng.sample(['c', 'd', 'cs', 'plain', 'plains'], rng.choice([1, 2, 2, 3])):
                if k in ('cs', 'plains'):
                    n.slots[k] = []
                    for _ in range(rng.randint(1, 3)):
                        n.slots[k].append(grow(c, rng.randint(0, depth - 1), n))
                else:
                    x = grow(c, rng.randint(0, depth - 1), n)
                    n.slots[k] = x
        return n

    def at(o, path):
        for k in path:
            o = o[k]
        return o

    def judge(c, root, o, attrs, sample):
        rng = c.rng
        everything = list(root.walk())
        nodes = everything if len(everything) <= sample else rng.sample(everything, sample)
        for holders, n in nodes:
            path = [k for _, a in holders for k in a]
            x = at(o, path)
            c.hit('nodes')
            cn = [h.name for h, _ in holders] + [n.name]
            c.log('%s is %s', path, '.'.join(cn))
            c.equal(x.name, n.name, 'name')
            c.equal(x.canonicalName, '.'.join(cn), 'canonical name')
            c.equal(x['canonicalName'], '.'.join(cn), 'canonical name')
            c.hit('names', 2)
            if holders:
                h = at(o, [k for _, a in holders[:-1] for k in a])
                c.expect(x._parentInstance is h, '%s is held by %r', cn, x._parentInstance)
                c.hit('holders')
                c.hit('between', holders[-1][1][0].startswith('plain'))
                c.hit('items', len(holders[-1][1]) > 1)
                # resolved from the root, and from any instance which holds it
                i = rng.randrange(len(holders)) if rng.random() < .6 else 0
                h = at(o, [k for _, a in holders[:i] for k in a])
                rel = cn[i + 1:]
                c.hit('from_inside', i > 0)
                how = rng.choice([lambda: '.'.join(rel), lambda: list(rel)])()
                hn = holders[i][0]
                same = [(hs, m) for hs, m in hn.walk() if hs and [k.name for k, _ in hs[1:]] + [m.name] == rel]
                paths = [[k for _, a in hs for k in a] for hs, _ in same]
                y = h.resolve_cname(how)
                if len(same) > 1:
                    c.hit('ambiguous')
                    c.expect(any(y is at(h, q) for q in paths), '%r from %r gives %r', rel, cn[:i + 1], y)
                else:
                    c.expect(y is x, '%r from %r', rel, cn[:i + 1])
                p = h.resolve_cname_path(list(rel))
                c.expect([int(k) if isinstance(k, int) else str(k) for k in p] in paths, 'path %r of %r', p, rel)
                c.hit('resolved')
                if n.v is not None:
                    c.expect(h.resolve_cname(rel + ['v']) in [m.v for _, m in same], 'value of %r', rel)
                    c.hit('values')
                bad = rel[:-1] + ['nowhere']
                c.hit('absent')
                c.raises(lambda: h.resolve_cname('.'.join(bad)), 'resolving %r' % bad)
                bad = ['nowhere'] + rel
                c.raises(lambda: h.resolve_cname(bad), 'resolving %r' % bad)
                if len(same) == 1 and attrs.get('_attributeByName') and len(holders[-1][1]) <= 2 and n.name.isidentifier():
                    h = at(o, [k for _, a in holders[:-1] for k in a])
                    if holders[-1][1][0] == 'cs':
                        c.expect(getattr(h, n.name) is x, 'attribute %s', n.name)
                        c.hit('by_name')
            s = str(x)
            c.expect('.'.join(cn) in s, 'printed %s for %r', s, cn)
            c.expect(repr(n.name) in repr(x), 'printed %r for %r', x, cn)
            c.hit('printed', 2)

    @run.workload('trees', quick=60, thorough=4000)
    def _(c):
        rng = c.rng
        A, attrs = classes(c)
        root = grow(c, 3)
        while sum(1 for _ in root.walk()) < 4:
            root = grow(c, 3)
        c.log('%r', root.data())
        o = A(root.data()) if rng.random() < .5 else A(**root.data())
        c.sig(sum(1 for _ in root.walk()), tuple(sorted(attrs)), rng.random())
        if rng.random() < .7:
            judge(c, root, o, attrs, 12)
        for _ in range(rng.randint(6, 10)):
            holders, n = rng.choice(list(root.walk()))
            path = [k for _, a in holders for k in a]
            x = at(o, path)
            k = rng.random()
            if k < .45:
                n.name = fresh(c, holders[-1][0] if holders else None)
                c.log('%s renamed %s', path, n.name)
                if rng.random() < .5:
                    x.name = n.name
                else:
                    x['name'] = n.name
                c.hit('renamed')
            elif k < .6:
                n.v = rng.randint(0, 99)
                x.v = n.v
            elif k < .75:
                s = rng.choice(['c', 'd', 'plain'])
                n.slots.pop(s, None)
                m = grow(c, rng.randint(0, 1), n)
                c.log('%s.%s replaced by %r', path, s, m.data())
                if s == 'plain':
                    x[s] = {'x': m.data(), 'y': 2}
                else:
                    x[s] = m.data()
                n.slots[s] = m
                c.hit('replaced')
            elif k < .85:
                m = grow(c, rng.randint(0, 1), n)
                c.log('%s.cs appended %r', path, m.data())
                if n.slots.get('cs'):
                    if rng.random() < .5:
                        x.cs.append(m.data())
                        n.slots['cs'].append(m)
                    else:
                        x.cs.insert(0, m.data())
                        n.slots['cs'].insert(0, m)
                else:
                    x.cs = [m.data()]
                    n.slots['cs'] = [m]
                c.hit('appended')
            elif len(n.slots.get('cs') or []) > 1:
                i = rng.randrange(len(n.slots['cs']))
                c.log('%s.cs[%i] removed', path, i)
                del n.slots['cs'][i]
                del x.cs[i]
                c.hit('removed')
            judge(c, root, o, attrs, 6)
            c.state(len(holders), tuple(sorted(n.slots)))
