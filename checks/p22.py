# -*- coding: utf-8 -*-
"""P22 - repositories: one entity per identity, in the order of the first commits, found by its keys, in sessions too."""
import datetime

from harness import gen


def register(run):
    from ngoschema.models.instances import Entity
    from ngoschema.repositories import MemoryRepository
    from ngoschema.session import Session
    run.rule = 'a distinct non-trivial case is a history of at least 12 commits in several repositories of a session'
    run.assumptions = ['keys are not changed without committing the entity again', 'keys left out are integers',
                       'the keys of an entity are values its properties accept']
    run.require(absent=1630, absent_names=150, added_keys=40, assigned=310, by_entity_keys=1830, by_keys=5570, commits=1330,
                composite=3620, initial=70, kept=1320, names=50, queries=930, rekeyed=140, replaced=140, resolved=6620,
                sessions=80, single=30, subclass=370)

    kinds = {
        'int': ({'type': 'integer'}, lambda c: c.rng.choice([0, 1, 2, 3, 4, 5, 7, 40])),
        'str': ({'type': 'string'}, lambda c: c.rng.choice(['a', 'b', 'a b', 'a,b', 'x.y', 'A', '3', '-'])),
        'date': ({'type': 'date'}, lambda c: datetime.date(2020, c.rng.randint(1, 3), c.rng.randint(1, 2))),
        'bool': ({'type': 'boolean'}, lambda c: c.rng.random() < .5),
    }

    def family(c):
        """an entity class and one of its subclasses"""
        rng = c.rng
        ks = rng.choice([['int'], ['int'], ['str'], ['int', 'str'], ['str', 'int'], ['int', 'int'], ['date', 'str'], ['str', 'bool', 'int']])
        names = rng.sample(['id', 'code', 'k', 'aKey', 'ref_no'], len(ks))
        if rng.random() < .3:
            names[0] = '$id' if ks[0] == 'str' else names[0]
        props = {n: kinds[k][0] for n, k in zip(names, ks)}
        rest = {'label': {'type': 'string'}, 'v': {'type': 'integer'}}
        items = list(props.items()) + list(rest.items())
        rng.shuffle(items)
        pk = list(names)
        schema = {'type': 'object', 'properties': dict(items), 'primaryKeys': pk}
        if '$id' in names:
            schema['properties']['$id'] = {'type': 'string'}
        P = gen.pclass(schema, bases=(Entity, ), name='P')
        S = gen.pclass({'type': 'object', 'properties': {'more': {'type': 'integer'}}}, bases=(P, ), name='S')
        return P, S, pk, ks

    class Repo:
        def __init__(self, repo, classes, pk, ks, many):
            self.repo, self.classes, self.pk, self.ks, self.many = repo, classes, pk, ks, many
            self.content = []      # (keys, entity), in order

        def _replace(self, cls):
            return Repo(None, [cls], self.pk, self.ks, self.many)

        def keys(self):
            return [k for k, _ in self.content]

        def put(self, keys, e):
            if not self.many:
                self.content = []
            same = [i for i, (k, x) in enumerate(self.content) if x is e or k == keys]
            if same:
                self.content[same[0]] = (keys, e)
                for i in reversed(same[1:]):
                    del self.content[i]
            else:
                self.content.append((keys, e))

        def find(self, keys):
            return next((x for k, x in self.content if k == keys), None)

    def newkeys(c, r):
        return tuple(kinds[k][1](c) for k in r.ks)

    def entity(c, r, keys, n):
        cls = c.rng.choice(r.classes)
        c.hit('subclass', cls is not r.classes[0])
        vals = {p: k for p, k in zip(r.pk, keys) if k is not None}
        e = cls(dict(vals, label='e%i' % n, v=n % 5))
        return e

    def judge(c, r):
        c.equal([id(x) for x in r.repo._content], [id(x) for _, x in r.content], 'content of the repository')
        for keys, e in r.content:
            c.hit('resolved')
            c.hit('composite', len(keys) > 1)
            c.expect(keys in r.repo, 'keys %r not found', keys)
            c.expect(r.repo.resolve_fkey(keys) is e, 'keys %r resolved to another entity', keys)
            c.equal(tuple(e.identityKeys), keys, 'identity keys')
            c.equal([e[k] for k in r.pk], list(keys), 'key properties')
            c.equal(e.do_serialize(use_identity_keys=True, root_entity=False), keys[0] if len(keys) == 1 else list(keys), 'by keys')
            c.hit('by_keys')
            if len(keys) == 1:
                c.equal(dict(e.do_serialize(use_entity_keys=True)), {'$ref' if r.pk[0] == '$id' else r.pk[0]: keys[0]}, 'by entity keys')
                c.hit('by_entity_keys')

    def absent(c, r):
        for _ in range(4):
            keys = newkeys(c, r)
            if r.find(keys) is None:
                c.hit('absent')
                c.expect(keys not in r.repo, 'keys %r found', keys)
                c.raises(lambda: r.repo.resolve_fkey(keys), 'keys %r' % (keys, ))

    @run.workload('commits', quick=200, thorough=3000)
    def _(c):
        rng = c.rng
        s, other = Session(), Session()
        fams = [family(c) for _ in range(rng.randint(1, 2))]
        repos = []
        made = 0
        for P, S, pk, ks in fams:
            for _ in range(rng.randint(1, 2)):
                many = rng.random() < .8
                base = rng.choice([P, P, S])
                classes = [P, S] if base is P else [S]
                init = []
                r = Repo(None, classes, pk, ks, many)
                if rng.random() < .4:
                    used = set()
                    for _ in range(rng.randint(1, 3) if many else 1):
                        k = newkeys(c, r)
                        if k not in used:
                            used.add(k)
                            init.append((k, entity(c, r._replace(base), k, made) if rng.random() < .5 else dict(zip(pk, k), label='e%i' % made)))
                            made += 1
                    c.hit('initial')
                r.repo = MemoryRepository([e for _, e in init], instanceClass=base, many=many, session=s)
                r.base = base
                # the repository makes its own entities of the values it is created with
                c.equal(len(r.repo._content), len(init), 'number of initial entities')
                for (k, e), x in zip(init, r.repo._content):
                    c.equal(x.label, e['label'], 'label of an initial entity')
                    r.put(k, x)
                repos.append(r)
                c.hit('single', not many)
        n = rng.randint(12, 22)
        c.sig(n, rng.random())
        for _ in range(n):
            r = rng.choice(repos)
            before = {id(q): [id(x) for x in q.repo._content] for q in repos if q is not r}
            k = rng.random()
            if k < .2 and r.content:
                # an entity already committed, with other values
                keys, e = rng.choice(r.content)
                if rng.random() < .6:
                    nk = newkeys(c, r)
                    for p, x in zip(r.pk, nk):
                        e[p] = x
                    keys = nk
                    c.hit('rekeyed')
                else:
                    e.v = rng.randint(0, 9)
            else:
                keys = newkeys(c, r)
                missing = [i for i, t in enumerate(r.ks) if t == 'int' and rng.random() < .35]
                e = entity(c, r, tuple(None if i in missing else x for i, x in enumerate(keys)), made)
                made += 1
                if missing:
                    c.hit('assigned')
                    r.repo.commit(e)
                    got = tuple(e[p] for p in r.pk)
                    for i, x in enumerate(got):
                        if i in missing:
                            c.expect(type(x) is int and x >= 0, 'key %r assigned', x)
                        else:
                            c.equal(x, keys[i], 'key given')
                    c.expect(not r.many or got not in r.keys(), 'keys %r already used were assigned', got)
                    r.put(got, e)
                    c.hit('commits')
                    judge(c, r)
                    continue
            c.hit('replaced', r.find(keys) is not None and r.find(keys) is not e)
            c.log('commit %r %r', r.repo.instanceClass.__name__, keys)
            r.repo.commit(e)
            r.put(keys, e)
            c.hit('commits')
            judge(c, r)
            for q in repos:
                if id(q) in before:
                    c.hit('kept')
                    c.equal([id(x) for x in q.repo._content], before[id(q)], 'content of another repository')
        for r in repos:
            absent(c, r)
            c.state(tuple(r.ks), len(r.content), r.many)
            for keys, e in r.content:
                c.hit('queries')
                c.expect(r.repo.query(label=e.label) is e, 'query by label')
                if len(keys) == 1 and keys[0] and r.pk[0] != '$id':
                    c.expect(r.repo.query(**{r.pk[0]: keys[0]}) is e, 'query by key')
        # through the session
        c.hit('sessions')
        held = {k[0]: e for r in reversed(repos) for k, e in r.content if len(k) == 1 and isinstance(k[0], str)}
        for k in sorted(set(held) | {'a', 'zz'}):
            if '.' in k:
                continue
            if k in held:
                e = held[k]
                c.expect(s.resolve_cname(k) is e, 'session: name %r', k)
                c.equal(s.resolve_cname(k + '.label'), e.label, 'session: label of the entity named %r', k)
                e.label = e.label + '*'
                c.equal(s.resolve_cname(k + '.label'), e.label, 'session: label of the entity named %r, once modified', k)
                e.label = e.label[:-1]
                c.hit('names')
            else:
                c.raises(lambda: s.resolve_cname(k), 'session: absent name %r' % k)
                c.hit('absent_names')
            c.raises(lambda: other.resolve_cname(k), 'other session: name %r' % k)
        for P, S, pk, ks in fams:
            mine = [r for r in repos if r.classes[-1] is S]
            cand = {k for r in mine for k in r.keys()} | {newkeys(c, mine[0]) for _ in range(3)}
            for cls in (P, S):
                for keys in cand:
                    want = next((r.find(keys) for r in mine if issubclass(r.base, cls) and r.find(keys) is not None), None)
                    if want is not None:
                        c.expect(s.resolve_fkey(keys, cls) is want, 'session: keys %r of %s', keys, cls.__name__)
                        if len(keys) == 1 and isinstance(keys[0], int) and not isinstance(keys[0], bool):
                            c.expect(s.resolve_fkey(keys[0], cls) is want, 'session: key %r', keys[0])
                        c.hit('resolved')
                    else:
                        c.raises(lambda: s.resolve_fkey(keys, cls), 'session: absent %r' % (keys, ))
                        c.hit('absent')
                    c.raises(lambda: other.resolve_fkey(keys, cls), 'other session')

    @run.workload('held', quick=100, thorough=1500)
    def _(c):
        """entities held by objects, serialized by their keys"""
        rng = c.rng
        P, S, pk, ks = family(c)
        H = gen.pclass({'type': 'object', 'properties': {'e': {'$ref': P._id}, 'es': {'type': 'array', 'items': {'$ref': P._id}},
                                                         'o': {'type': 'object', 'properties': {'e': {'$ref': P._id}}},
                                                         'n': {'type': 'integer'}}})
        c.sig(tuple(ks), rng.random())
        r = Repo(None, [P, S], pk, ks, True)

        def one():
            k = newkeys(c, r)
            d = dict(zip(pk, k), label='l%i' % rng.randint(0, 9))
            e = rng.choice([lambda: dict(d), lambda: rng.choice([P, S])(dict(d))])()
            return k, d, e
        e, a, b = one(), [one() for _ in range(rng.randint(0, 3))], one()
        h = H(e=e[2], es=[x[2] for x in a], o={'e': b[2]}, n=3)
        by = lambda k: k[0] if len(k) == 1 else list(k)
        got = h.do_serialize(use_identity_keys=True)
        c.equal(got['e'], by(e[0]), 'held')
        c.equal(list(got.get('es', [])), [by(x[0]) for x in a], 'held in an array')
        c.equal(got['o']['e'], by(b[0]), 'held by a held object')
        c.equal(got['n'], 3, 'other property')
        c.hit('by_keys', 2 + len(a))
        # an array finds its entities by their keys
        for k in [x[0] for x in a] + [newkeys(c, r) for _ in range(2)]:
            first = [i for i, x in enumerate(a) if list(x[0]) == list(k)][:1]
            got = h.es.get(*k)
            c.expect(got is h.es[first[0]] if first else got is None, 'entity %r of an array is %r, expected %r', k, got, first)
            got = h.es.get(**dict(zip(pk, k), default=3)) if '$id' not in pk else h.es.get(*k, default=3)
            c.expect(got is h.es[first[0]] if first else got == 3, 'entity %r of an array is %r, expected %r', k, got, first)
            c.hit('array_get')
        if len(pk) == 1:
            name = '$ref' if pk[0] == '$id' else pk[0]
            got = h.do_serialize(use_entity_keys=True)
            c.equal(dict(got['e']), {name: e[0][0]}, 'held, entity keys')
            c.equal([dict(x) for x in got.get('es', [])], [{name: x[0][0]} for x in a], 'held in an array, entity keys')
            c.hit('by_entity_keys', 1 + len(a))
        # keys changed since: serialized by the current ones
        nk = newkeys(c, r)
        for p, x in zip(pk, nk):
            h.e[p] = x
        c.equal(h.do_serialize(use_identity_keys=True)['e'], by(nk), 'held, keys changed')
        c.expect(str(h.e).endswith(' %s>' % ', '.join(str(x) for x in nk)), 'printed %s, keys %r', str(h.e), nk)
        # keys can be added to what is serialized
        R = gen.pclass({'type': 'object', 'properties': {p: kinds[k][0] for p, k in zip(pk, ks)}, 'primaryKeys': pk,
                        'notSerialized': [p for p in pk if rng.random() < .6]}, bases=(Entity, ), name='R')
        x = R(dict(zip(pk, nk)))
        got = x.do_serialize(add_identity_keys=True)
        c.equal({k: got.get(k) for k in pk}, dict(zip(pk, nk)), 'keys added')
        c.hit('added_keys')
