# -*- coding: utf-8 -*-
"""P18 - query results: order, distinctness, combination, and independence of the queries made from one another."""
from harness import gen


class Model:
    """items (in the order of the source), and what is asked on their reading"""

    def __init__(self, items, distinct=False, order=None, reverse=False):
        self.items, self.distinct, self.order, self.reverse = items, distinct, order, reverse


def register(run):
    from ngoschema.query import Query
    run.rule = 'a distinct non-trivial case is a (source, program of at least 8 query operations)'
    run.assumptions = ['the source does not change while it is queried', 'the values ordered by are given and comparable']
    run.require(read=1500, reread=400, ordered=250, reversed=250, distinct=250, union=60, intersection=60, difference=60,
                chained=300, iterator=200, first=40, last=40, slices=40, contains=60, ties=100)

    def dedupe(items):
        res = []
        for o in items:
            if not any(o is r or o == r for r in res):
                res.append(o)
        return res

    def ids(l):
        return [id(o) for o in l]

    @run.workload('program', quick=240, thorough=6000)
    def _(c):
        rng = c.rng
        kind = rng.choice(['dict', 'dict', 'object', 'int', 'str'])
        n = rng.randint(0, 10) if rng.random() < .3 else rng.randint(4, 10)
        if kind == 'object':
            cls = gen.pclass({'properties': {'a': {'type': 'integer'}, 's': {'type': 'string'},
                                             'o': {'type': 'object', 'properties': {'k': {'type': 'integer'}}}}}, gen.uid(c))
            objs = [cls(a=rng.randint(0, 3), s=rng.choice('xyz'), o={'k': rng.randint(0, 2)}) for _ in range(n)]
        elif kind == 'dict':
            objs = [{'a': rng.randint(0, 3), 's': rng.choice('xyz'), 'o': {'k': rng.randint(0, 2)}} for _ in range(n)]
        elif kind == 'int':
            objs = [rng.randint(1, 6) for _ in range(n)]
        else:
            objs = [rng.choice(['x', 'y', 'z', 'xy', 'xyz']) for _ in range(n)]
        if kind in ('dict', 'object') and rng.random() < .5:
            objs += [objs[rng.randrange(n)] for _ in range(rng.randint(1, 3))] if n else []
        source = rng.choice(['list', 'tuple', 'values', 'iterator', 'generator'])
        src = {'list': lambda: objs, 'tuple': lambda: tuple(objs), 'values': lambda: dict(enumerate(objs)).values(),
               'iterator': lambda: iter(objs), 'generator': lambda: (o for o in objs)}[source]
        keep = list(objs)
        keys = ['a', 's', 'o.k', ['o', 'k'], ['a']] if kind in ('dict', 'object') else []

        def key(o, k):
            for p in (k.split('.') if isinstance(k, str) else k):
                o = o[p]
            return o

        def check(q, m, what, first):
            """one of the ways to read the results"""
            want = m.items
            if m.distinct:
                want = dedupe(want)
            how = rng.choice(['list', 'all', 'len', 'count', 'empty', 'index', 'slice', 'first', 'last', 'contains', 'get',
                              'next', 'twice'])
            if m.order:
                # ties may come in any order
                got = list(q)
                ks = [key(o, m.order) for o in got]
                c.expect(sorted(ids(got)) == sorted(ids(want)), '%s: other items than those of the query', what)
                c.expect(ks == sorted(ks, reverse=bool(m.reverse)), '%s: ordered by %r (reverse %r): %r', what, m.order,
                         m.reverse, ks)
                c.hit('ordered')
                c.hit('ties', len(set(map(repr, ks))) < len(ks))
                want = got
            elif m.reverse:
                want = want[::-1]
            c.hit('reversed', bool(m.reverse))
            c.hit('distinct', bool(m.distinct))
            c.hit('iterator', source in ('iterator', 'generator'))
            c.hit('read')
            if not first:
                c.hit('reread')
            what = '%s, read by %s' % (what, how)
            if how == 'len' or how == 'count':
                c.equal(len(q) if how == 'len' else q.count(), len(want), what)
            elif how == 'empty':
                c.equal(q.isEmpty(), not want, what)
            elif how == 'index':
                c.expect(ids([q[i] for i in range(len(want))]) == ids(want), '%s: %r, expected %r', what, list(q), want)
                c.raises(lambda: q[len(want)], what, kinds=IndexError)
            elif how == 'slice':
                i, j = rng.choice([None, 0, 1, 2]), rng.choice([None, 1, 3, 20])
                c.expect(ids(q[i:j]) == ids(want[i:j]), '%s [%r:%r]', what, i, j)
                c.hit('slices')
            elif how == 'first' or how == 'last':
                r = getattr(q, how)()
                if want:
                    c.expect(r is want[0 if how == 'first' else -1], '%s: %r, expected from %r', what, r, want)
                else:
                    c.expect(r is None, '%s: %r on an empty query', what, r)
                c.hit(how)
            elif how == 'contains':
                for o in keep[:4]:
                    c.equal(o in q, any(o is w or o == w for w in want), '%s of %r', what, o)
                c.hit('contains')
            elif how == 'get':
                if len(want) == 1:
                    c.expect(q.get() is want[0], what)
                elif not (m.distinct and len(want) == 1):
                    c.raises(lambda: q.get(), what)
            elif how == 'next':
                if not (m.order or m.reverse):
                    # of the selected items, in the order of the source, as many times as asked
                    if want:
                        c.expect(q.next() is want[0] and q.next() is want[0], what)
                    else:
                        c.raises(lambda: q.next(), what, kinds=StopIteration)
            elif how == 'twice':
                it = iter(q)
                a = next(it, None)
                c.expect(ids(q) == ids(want), what)
                c.expect(not want or a is want[0], what)
                c.expect(ids(it) == ids(want[1:]), '%s: an iteration interrupted by another one', what)
            c.expect(ids(q) == ids(want), '%s: %r, expected %r', what, list(q), want)
            c.expect(ids(q.all()) == ids(want), '%s: all %r, expected %r', what, q.all(), want)
            c.state(how, source, bool(m.distinct), bool(m.order), bool(m.reverse), len(want))
            return want

        d = rng.random() < .25
        ob = rng.choice(keys) if keys and rng.random() < .3 else None
        rv = rng.random() < .25
        if ob is None:
            pool = [(Query(src(), distinct=d, reverse=rv), Model(objs, d, None, rv))]
        else:
            pool = [(Query(src(), distinct=d, order_by=ob, reverse=rv), Model(objs, d, ob, rv))]
        seen = set()
        prog = []
        for step in range(rng.randint(8, 14)):
            qi = rng.randrange(len(pool))
            q, m = pool[qi]
            op = rng.choice(['read', 'read', 'filter', 'exclude', 'any_of', 'order_by', 'reverse', 'union', 'intersection',
                             'difference', 'options'])
            what = '%s source, query %i after %r' % (source, qi, prog[-6:])
            prog.append((qi, op))
            c.log(qi, op)
            if op == 'read':
                check(q, m, what, qi not in seen)
                seen.add(qi)
                continue
            if op in ('filter', 'exclude', 'any_of', 'options'):
                o, r, dd = m.order, m.reverse, m.distinct
                opts = {}
                if op == 'options':
                    if rng.random() < .5:
                        opts['distinct'] = dd = True
                    if rng.random() < .5:
                        opts['reverse'] = r = rng.random() < .6
                    if keys and rng.random() < .5:
                        opts['order_by'] = o = rng.choice(keys)
                if kind in ('dict', 'object'):
                    v, w = rng.randint(0, 3), rng.choice('xyz')
                    tests = {'filter': lambda x: x['a'] >= v, 'exclude': lambda x: not x['s'] == w,
                             'any_of': lambda x: x['a'] >= v or x['s'] == w, 'options': lambda x: x['o']['k'] < v}
                    nq = {'filter': lambda: q.filter(a__ge=v), 'exclude': lambda: q.exclude(s=w),
                          'any_of': lambda: q.filter_any_of(a__ge=v, s=w),
                          'options': lambda: q.filter(o__k__lt=v, **opts)}[op]()
                    test = tests[op]
                else:
                    test = lambda x: True
                    nq = q.filter(**opts)
                items = dedupe(m.items) if m.distinct else m.items
                items = [x for x in items if test(x)]
                pool.append((nq, Model(items, dd, o, r)))
                c.hit('chained')
                c.sig(kind, source, prog)
                continue
            if op == 'order_by':
                if not keys:
                    continue
                k, r = rng.choice(keys), rng.random() < .5
                pool.append((q.order_by(k, reverse=r), Model(m.items, m.distinct, k, r)))
            elif op == 'reverse':
                pool.append((q.reverse(), Model(m.items, m.distinct, m.order, not m.reverse)))
            else:
                others = [pool[rng.randrange(len(pool))] for _ in range(rng.randint(1, 2))]
                seen.add(qi)
                a = check(q, m, what, False)
                bs = []
                for oq, om in others:
                    bs.append(check(oq, om, what, False))
                nq = getattr(q, op)(*[oq for oq, _ in others])
                if op == 'union':
                    items = a + [x for b in bs for x in b]
                elif op == 'intersection':
                    items = [x for x in a if all(any(x is y or x == y for y in b) for b in bs)]
                else:
                    items = [x for x in a if not any(x is y or x == y for b in bs for y in b)]
                # the order of the results is that of the first query
                pool.append((nq, Model(items, m.distinct, m.order, m.reverse if m.order else False)))
                c.hit(op)
                check(q, m, what + ' (first query of a %s)' % op, False)
        for qi, (q, m) in enumerate(pool):
            check(q, m, 'at the end, %s source, query %i of %r' % (source, qi, prog), qi not in seen)
        c.expect(ids(objs) == ids(keep), 'the source has changed')
