# -*- coding: utf-8 -*-
"""P31 - foreign keys are the keys of the entities they are given, and their pointers give these entities."""
import datetime

from harness import gen


def register(run):
    from ngoschema.models.instances import Entity
    from ngoschema.repositories import MemoryRepository
    from ngoschema.session import Session
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    run.rule = 'a distinct non-trivial case is a class of entities, a class of objects referring to them, and at least 10 values'
    run.assumptions = ['a text is given for a composite key only when its keys have no comma nor outer spaces',
                       'classes referred to are defined before, in the same document or the class itself',
                       'entities are committed with all their keys']
    run.require(composite=910, single=800, by_key=430, by_text=410, by_list=450, by_entity=420, by_subclass=150, items=650,
                serialized=2600, nothing=80, refused=80, pointer=970, unresolved=580, assigned_pointer=270, recommitted=170,
                held=40, self_reference=20, document=30, own_keys=60, no_session=50)

    kinds = {
        'int': ({'type': 'integer'}, lambda c: c.rng.choice([0, 1, 2, 3, 4, 7, 40, 123456789]), str),
        'str': ({'type': 'string'}, lambda c: c.rng.choice(['a', 'b', 'a b', 'x.y', 'A', '3', '-', 'é', 'a/b']), str),
        'date': ({'type': 'date'}, lambda c: datetime.date(2020, c.rng.randint(1, 3), c.rng.randint(1, 2)), lambda d: d.isoformat()),
    }
    shapes = [['int'], ['int'], ['str'], ['str'], ['int', 'str'], ['str', 'int'], ['int', 'int'], ['str', 'str'], ['int', 'str', 'date']]

    class Fam:
        """a class of entities, one of its subclasses and what is expected of a foreign key to them"""

        def __init__(self, c, extra=None, own=False):
            rng = c.rng
            self.ks = rng.choice(shapes)
            self.pk = rng.sample(['id', 'code', 'k', 'aKey', 'ref_no'], len(self.ks))
            items = [(n, kinds[k][0]) for n, k in zip(self.pk, self.ks)] + [('label', {'type': 'string'})]
            rng.shuffle(items)
            props = dict(items)
            self.id = gen.uid(c, 'P')
            props.update(extra(self.id) if extra else {})
            self.P = gen.pclass({'type': 'object', 'properties': props, 'primaryKeys': list(self.pk)}, id=self.id, bases=(Entity, ), name='P')
            self.S = gen.pclass({'type': 'object', 'properties': {'more': {'type': 'integer'}}}, bases=(self.P, ), name='S')
            self.fk = list(range(len(self.pk)))
            self.schema = {'type': 'foreignKey', 'foreignKey': {'foreignSchema': self.id}}
            if own:
                # keys of its own, among the properties of the entities
                self.fk = rng.sample(self.fk, rng.randint(1, len(self.fk)))
                self.schema['foreignKey']['foreignKeys'] = [self.pk[i] for i in self.fk]
                c.hit('own_keys')

        def keys(self, c):
            return tuple(kinds[k][1](c) for k in self.ks)

        def entity(self, c, keys):
            cls = c.rng.choice([self.P, self.P, self.S])
            return cls(dict(zip(self.pk, keys), label=gen.word(c.rng)))

        def want(self, keys):
            ks = tuple(keys[i] for i in self.fk)
            return ks[0] if len(ks) == 1 else ks

        def value(self, c, keys, entity=None):
            """some way of giving these keys"""
            rng = c.rng
            ks = [keys[i] for i in self.fk]
            ts = [kinds[self.ks[i]][2](keys[i]) for i in self.fk]
            c.hit('single' if len(ks) == 1 else 'composite')
            how = rng.choice(['key', 'text', 'list', 'entity'])
            if how == 'text' and len(ts) > 1 and any(',' in t or t.strip() != t for t in ts):
                how = 'list'
            c.hit('by_' + how)
            if how == 'key':
                return ks[0] if len(ks) == 1 else tuple(ks)
            if how == 'text':
                return ts[0] if len(ts) == 1 else rng.choice([',', ', ', ' ,']).join(ts)
            if how == 'list':
                return rng.choice([list, tuple])(rng.choice(p) for p in zip(ks, ts))
            e = entity if entity is not None else self.entity(c, keys)
            c.hit('by_subclass', type(e) is self.S)
            return e

    def flat(x):
        return list(x) if isinstance(x, (list, tuple)) else x

    def plain(x):
        """what is serialized: dates are text"""
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        return x.isoformat() if isinstance(x, datetime.date) else x

    def judge(c, got, want, what):
        if isinstance(want, tuple):
            c.expect(isinstance(got, (tuple, list)), '%s: %r is not composite', what, got)
        c.equal(flat(got), flat(want), what)

    @run.workload('values', quick=200, thorough=6000)
    def _(c):
        rng = c.rng
        fams = [Fam(c, own=rng.random() < .3) for _ in range(rng.randint(1, 3))]
        names = rng.sample(['owner', 'f', 'refTo', 'g_x', 'link', 'z'], len(fams))
        props = dict(zip(names, (f.schema for f in fams)))
        props.update({'all%s' % n: {'type': 'array', 'items': f.schema} for n, f in zip(names, fams)})
        C = gen.pclass({'type': 'object', 'properties': props})
        c.sig(tuple(tuple(f.ks) for f in fams), rng.random())
        o, exp = C(), {}
        for n in range(12):
            i = rng.randrange(len(fams))
            f, name = fams[i], names[i]
            k = rng.random()
            if k < .08:
                v = rng.choice([None, -1, -7])
                c.log('%s = %r', name, v)
                o[name] = v
                exp.pop(name, None)
                c.equal(o[name], None, 'no key')
                c.hit('nothing')
            elif k < .6:
                keys = f.keys(c)
                v = f.value(c, keys)
                c.log('%s = %r', name, v)
                how = rng.randrange(4)
                if how == 0:
                    o[name] = v
                elif how == 1:
                    setattr(o, name, v)
                elif how == 2:
                    o.update({name: v})
                else:
                    o = C(dict(o.do_serialize(), **{name: v})) if rng.random() < .5 else C(dict(list(o.items()), **{name: v}))
                exp[name] = f.want(keys)
            else:
                name = 'all' + name
                ks = [f.keys(c) for _ in range(rng.randint(0, 3))]
                vs = [f.value(c, x) for x in ks]
                c.log('%s = %r', name, vs)
                if rng.random() < .3 and exp.get(name):
                    o[name].extend(vs)
                    exp[name] = exp[name] + [f.want(x) for x in ks]
                elif rng.random() < .3 and exp.get(name) and vs:
                    j = rng.randrange(len(exp[name]))
                    o[name][j] = vs[0]
                    exp[name][j] = f.want(ks[0])
                else:
                    o[name] = vs
                    exp[name] = [f.want(x) for x in ks]
                c.hit('items', len(vs))
            for name, want in exp.items():
                if name.startswith('all'):
                    c.equal(len(o[name]), len(want), 'items of ' + name)
                    for j, w in enumerate(want):
                        judge(c, o[name][j], w, '%s[%i]' % (name, j))
                else:
                    judge(c, o[name], want, name)
                    judge(c, getattr(o, name), want, name)
            got = o.do_serialize()
            for name, want in exp.items():
                if want != []:
                    c.hit('serialized')
                    c.equal(plain(got[name]), plain(want), 'serialized %s' % name)
            c.equal(C(got).do_serialize(), got, 'read back')
        # values which are not keys
        f, name = rng.choice(list(zip(fams, names)))
        if 'int' in [f.ks[i] for i in f.fk]:
            bad = ['x' if f.ks[i] == 'int' else kinds[f.ks[i]][1](c) for i in f.fk]
            bad = rng.choice([bad, tuple(bad)] + ([bad[0]] if len(bad) == 1 else []))
            c.log('%s = %r refused', name, bad)
            c.hit('refused')
            c.raises(lambda: C({name: bad})[name], 'a value which is no key', kinds=(ValueError, TypeError))
            if len(f.fk) == 1:
                E = gen.pclass({'type': 'object', 'properties': {'uu': {'type': 'string'}}, 'primaryKeys': ['uu']}, bases=(Entity, ))
                e = E(uu='u')
                c.raises(lambda: C({name: e})[name], 'an entity of another class', kinds=(ValueError, TypeError))
                c.hit('refused')

    @run.workload('pointers', quick=250, thorough=5000)
    def _(c):
        rng = c.rng
        kind = rng.choice(['other', 'other', 'self', 'document'])
        s = Session()
        if kind == 'document':
            ent = 'https://numengo.org/ngoschema#/$defs/instances/$defs/Entity'
            fams = []
            uri = gen.uid(c, 'doc')
            doc = {'$id': uri, '$defs': {}}
            for n in 'AB':
                f = Fam.__new__(Fam)
                f.ks = rng.choice(shapes)
                f.pk = rng.sample(['id', 'code', 'k', 'aKey'], len(f.ks))
                f.fk = list(range(len(f.pk)))
                f.id = '%s#/$defs/%s' % (uri, n)
                f.schema = {'type': 'foreignKey', 'foreignKey': {'foreignSchema': '#/$defs/%s' % n}}
                fams.append(f)
            for n, f, other in zip('AB', fams, reversed(fams)):
                props = {p: kinds[k][0] for p, k in zip(f.pk, f.ks)}
                props.update({'label': {'type': 'string'}, 'to': other.schema, 'many': {'type': 'array', 'items': other.schema}})
                doc['$defs'][n] = {'type': 'object', 'extends': [ent], 'properties': props, 'primaryKeys': list(f.pk)}
            UriResolver.register_doc(doc, uri)
            order = list(zip('AB', fams))
            rng.shuffle(order)
            for n, f in order:
                f.P = type_builder.load(f.id)
                f.S = gen.pclass({'type': 'object', 'properties': {'more': {'type': 'integer'}}}, bases=(f.P, ), name='S')
            f, g = fams
            C = g.P        # its objects refer to those of f
            own = dict(zip(g.pk, g.keys(c)))
            c.hit('document')
        elif kind == 'self':
            f = Fam(c, extra=lambda i: {n: {'type': 'foreignKey', 'foreignKey': {'foreignSchema': i}} for n in ('to', )})
            C = f.P
            own = dict(zip(f.pk, f.keys(c)))
            c.hit('self_reference')
        else:
            f = Fam(c)
            C = gen.pclass({'type': 'object', 'properties': {'to': f.schema, 'v': {'type': 'integer'}}}, id=gen.uid(c, 'C'))
            own = {}
        held = rng.random() < .4
        if held:
            H = gen.pclass({'type': 'object', 'properties': {'o': {'$ref': C._id}}})
            h = H(o=own or {}, session=s)
            o = h.o
            c.hit('held')
        else:
            o = C(own, session=s)
        c.sig(kind, tuple(f.ks), rng.random())
        repos = [(MemoryRepository(instanceClass=f.P, many=True, session=s), [f.P, f.S])]
        if rng.random() < .5:
            repos.append((MemoryRepository(instanceClass=f.S, many=True, session=s), [f.S]))
        if rng.random() < .5:
            X = gen.pclass({'type': 'object', 'properties': {p: kinds[k][0] for p, k in zip(f.pk, f.ks)}, 'primaryKeys': list(f.pk)},
                           bases=(Entity, ), name='X')
            repos.insert(rng.randrange(2), (MemoryRepository(instanceClass=X, many=True, session=s), [X]))
        content = []     # (repository, keys, entity)
        order = {id(r): i for i, r in enumerate(s.repositories)}
        cur = None

        def expected(keys):
            found = [(order[id(r)], e) for r, k, e in content if k == keys and issubclass(r.instanceClass, f.P)]
            return min(found, key=lambda x: x[0])[1] if found else None

        def get():
            return rng.choice([lambda: o.to_ptr, lambda: o['to_ptr']])()
        for _ in range(14):
            k = rng.random()
            if k < .4 or not content:
                r, classes = rng.choice(repos)
                keys = f.keys(c)
                if cur is not None and rng.random() < .5:
                    keys = cur
                e = rng.choice(classes)(dict(zip(f.pk, keys)))
                c.log('commit %s %r', r.instanceClass.__name__, keys)
                if any(x[0] is r and x[1] == keys for x in content):
                    c.hit('recommitted')
                    content = [x for x in content if x[0] is not r or x[1] != keys]
                r.commit(e)
                content.append((r, keys, e))
            elif k < .75:
                keys = rng.choice(content)[1] if rng.random() < .7 else f.keys(c)
                v = f.value(c, keys, expected(keys))
                c.log('to = %r', v)
                if rng.random() < .5:
                    o['to'] = v
                else:
                    o.to = v
                cur = keys
            elif k < .8:
                o.to = None
                cur = None
                c.log('to = None')
            else:
                cand = [(kk, e) for r, kk, e in content if issubclass(r.instanceClass, f.P)]
                if not cand:
                    continue
                keys, e = rng.choice(cand)
                c.log('to_ptr = %r', keys)
                if rng.random() < .5:
                    o.to_ptr = e
                else:
                    o['to_ptr'] = e
                cur = keys
                c.hit('assigned_pointer')
            c.equal(flat(o.to), None if cur is None else flat(f.want(cur)), 'key')
            e = None if cur is None else expected(cur)
            if e is None:
                c.hit('unresolved')
                c.raises(get, 'pointer of %r' % (cur, ), kinds=(ValueError, KeyError))
            else:
                c.hit('pointer')
                x = get()
                c.expect(x is e, 'pointer of %r is %r', cur, x)
                t = C._items_type(C, 'to')
                c.expect(t.resolve(cur if len(cur) > 1 else cur[0], session=s) is e, 'key %r resolved by its type', cur)
            c.state(kind, tuple(f.ks), e is not None, len(content))
        # another session knows nothing of them
        if kind == 'other' and content:
            keys = content[0][1]
            x = C(to=f.want(keys), session=Session())
            c.raises(lambda: x.to_ptr, 'pointer in another session', kinds=(ValueError, ))
            c.hit('no_session')
