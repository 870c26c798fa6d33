# -*- coding: utf-8 -*-
"""P29 - threads: unique counters, a session per thread, types built and objects used by several threads."""
import sys
import threading
import traceback

from harness import gen


def parallel(c, jobs, timeout=60):
    """runs the jobs (callables) in as many threads started together; their errors are violations"""
    errors = []
    barrier = threading.Barrier(len(jobs))

    def run(job):
        try:
            barrier.wait(timeout)
            job()
        except BaseException as er:
            errors.append('%s: %s\n%s' % (type(er).__name__, er, traceback.format_exc()[-1500:]))
    ts = [threading.Thread(target=run, args=(j,), daemon=True) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(timeout)
    c.expect(not any(t.is_alive() for t in ts), 'threads which do not end')
    c.expect(not errors, 'error in a thread: %s', errors[0] if errors else '')
    c.hit('threads', len(jobs))


class Switchy:
    """switches threads as often as the interpreter can, at an interval drawn for the case"""

    def __init__(self, rng, intervals=(1e-5, 1e-4, 1e-3)):
        self.interval = rng.choice(intervals)

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)


def register(run):
    from ngoschema.utils.utils import threadsafe_counter
    from ngoschema.session import session_maker, scoped_session, Session
    from ngoschema import session as session_mod
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    from sqlalchemy.exc import InvalidRequestError
    run.rule = 'a distinct non-trivial case is a set of at least 3 threads started together with generated work'
    run.assumptions = ['threads of one process, scheduled by the interpreter with a short switch interval',
                       'an object is modified by one thread only']
    run.require(threads=300, tickets=20000, interleaved=3, sessions=40, scopes=15, removed=15, refused=15, built=70, values=2500)

    @run.workload('counter', quick=20, thorough=500)
    def _(c):
        rng = c.rng
        start = rng.choice([None, 0, 1, -5, 1000])
        nxt = threadsafe_counter() if start is None else threadsafe_counter(start)
        other = threadsafe_counter(7)
        n, k = rng.randint(3, 8), rng.randint(200, 600)
        got = [[] for _ in range(n)]
        c.sig(start, n, k)

        def job(i):
            for _ in range(k):
                got[i].append(nxt())
        with Switchy(rng, (1e-6, 1e-5, 1e-4)):
            parallel(c, [lambda i=i: job(i) for i in range(n)])
        first = 1 if start is None else start
        for g in got:
            c.expect(all(a < b for a, b in zip(g, g[1:])), 'the numbers given to a thread do not increase')
        every = sorted(x for g in got for x in g)
        c.equal(every, list(range(first, first + n * k)), 'numbers given by the counter')
        c.hit('tickets', n * k)
        order = sorted((x, i) for i, g in enumerate(got) for x in g)
        switches = sum(a[1] != b[1] for a, b in zip(order, order[1:]))
        c.hit('interleaved', switches > n)
        c.state(switches)
        c.equal(other(), 7, 'another counter')
        c.equal(nxt(), first + n * k, 'next number')

    @run.workload('sessions', quick=30, thorough=600)
    def _(c):
        rng = c.rng
        n = rng.randint(3, 6)
        flush = rng.random() < .5
        mk = session_maker(autoflush=flush)
        by_token = rng.random() < .4
        local = threading.local()
        S = scoped_session(mk, lambda: local.token) if by_token else scoped_session(mk)
        tokens = [rng.randint(0, 2) for _ in range(n)]
        c.sig(n, by_token, tokens, flush, rng.random())
        got = [[] for _ in range(n)]
        ids = []
        work = [[rng.choice(['get', 'get', 'remove', 'args']) for _ in range(8)] for _ in range(n)]

        def job(i):
            local.token = i if not by_token else tokens[i]
            cur = None
            for op in work[i]:
                if op == 'get':
                    s = S()
                    c.expect(isinstance(s, Session), 'not a session')
                    if not by_token:
                        c.expect(cur is None or s is cur, 'another session in the same thread')
                    if cur is None:
                        got[i].append(s)
                    cur = s
                elif op == 'remove' and not by_token:
                    S.remove()
                    if cur is not None:
                        c.hit('removed')
                    cur = None
                elif op == 'args' and cur is not None:
                    c.raises(lambda: S(autoflush=True), 'arguments for a session which exists', kinds=InvalidRequestError)
                    c.hit('refused')
                elif op == 'args' and not by_token:
                    cur = S(autoflush=not flush)
                    c.expect(bool(cur.autoflush) == (not flush), 'argument of the session')
                    got[i].append(cur)
                    c.expect(S() is cur, 'the session created with arguments is not the current one')
        with Switchy(rng):
            parallel(c, [lambda i=i: job(i) for i in range(n)])
        if by_token:
            # a session per token, once the threads have ended
            per = {}
            for t, g in zip(tokens, got):
                if g:
                    local.token = t
                    per[t] = S()
                    c.hit('scopes')
            c.expect(len({id(s) for s in per.values()}) == len(per), 'two scopes share a session')
            for t, s in per.items():
                local.token = t
                c.expect(S() is s, 'the session of a scope is another one')
        else:
            every = [s for g in got for s in g]
            c.expect(len({id(s) for s in every}) == len(every), 'two threads, or a thread after removal, share a session')
            ids = [s._hash_key for s in every]
            c.expect(len(set(ids)) == len(ids), 'two sessions have the same number')
            c.expect(all(session_mod._sessions.get(s._hash_key) is s for s in every), 'a session is not registered under its number')
            c.hit('sessions', len(every))
            mine = S()
            c.expect(mine not in [s for s in every if s is mine], 'session of another thread')
            c.expect(bool(mine.autoflush) == flush, 'option of the maker')
            S.configure(autoflush=not flush)
            c.expect(S() is mine and bool(mine.autoflush) == flush, 'configuring changes the current session')
            S.remove()
            c.expect(S() is not mine and bool(S().autoflush) == (not flush), 'option configured')
            S.remove()

    @run.workload('types', quick=25, thorough=600)
    def _(c):
        rng = c.rng
        u = gen.uid(c, 'doc')
        n = rng.randint(3, 7)
        nxt = [rng.randrange(n) for _ in range(n)]
        defs = {}
        for i in range(n):
            p = {'v': {'type': 'integer', 'minimum': i}, 'n': {'$ref': '#/$defs/N%i' % nxt[i]},
                 'l': {'type': 'array', 'items': {'$ref': '#/$defs/N%i' % nxt[i]}}}
            for k in range(rng.randint(0, 4)):
                p['x%i' % k] = {'type': 'string', 'default': 'd%i' % i}
            defs['N%i' % i] = {'type': 'object', 'properties': p}
        UriResolver.register_doc({'$defs': defs}, u)
        who = [rng.randrange(n) for _ in range(rng.randint(3, 8))]
        c.sig(n, nxt, who, rng.random())
        classes = {}

        def job(j, i):
            k = type_builder.load('%s#/$defs/N%i' % (u, i))
            classes[j] = k
            o = k(v=i + 1, n={'v': 9, 'n': {'v': 9}}, l=[{'v': str(8)}])
            c.expect(o.v == i + 1 and o.n.v == 9 and o.n.n.v == 9 and o.l[0].v == 8, 'values in a thread')
            c.raises(lambda: k(v=i - 1), 'below the minimum')
        with Switchy(rng):
            parallel(c, [lambda j=j, i=i: job(j, i) for j, i in enumerate(who)])
        for j, i in enumerate(who):
            c.expect(classes[j] is type_builder.load('%s#/$defs/N%i' % (u, i)), 'threads got different types for the same uri')
            c.hit('built')

    SCHEMA = {'type': 'object', 'properties': {
        'a': {'type': 'integer'}, 'b': {'type': 'integer', 'default': '`this.a+1'}, 's': {'type': 'string', 'default': 'v{{this.a}}'},
        'l': {'type': 'array', 'items': {'type': 'integer'}}, 'd': {'type': 'date'},
        'o': {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'y': {'type': 'integer', 'default': '`this.x*2'}}}}}

    @run.workload('objects', quick=12, thorough=500)
    def _(c):
        rng = c.rng
        K = gen.pclass(SCHEMA, gen.uid(c, 'K'), 'K')
        n = rng.randint(3, 6)
        seeds = [[rng.randint(0, 10 ** 6) for _ in range(10)] for _ in range(n)]
        c.sig(n, seeds)

        def job(i):
            for v in seeds[i]:
                o = K(a=v, o={'x': str(v)})
                c.equal((int(o.a), int(o.b), str(o.s)), (v, v + 1, 'v%i' % v), 'values')
                c.equal((int(o.o.x), int(o.o.y)), (v, 2 * v), 'values of the nested object')
                o.a = v + 5
                o.l = [v, v + 1]
                o.l.append(str(v + 2))
                c.equal((int(o.b), str(o.s)), (v + 6, 'v%i' % (v + 5)), 'values after an assignment')
                c.equal([int(x) for x in o.l], [v, v + 1, v + 2], 'items')
                c.raises(lambda: setattr(o, 'a', 'text'), 'invalid value')
                o.a = str(v + 7)
                c.equal((int(o.a), int(o.b)), (v + 7, v + 8), 'values after an assignment')
                c.hit('values', 9)
        with Switchy(rng):
            parallel(c, [lambda i=i: job(i) for i in range(n)])
