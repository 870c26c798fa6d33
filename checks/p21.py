# -*- coding: utf-8 -*-
"""P21 - schema references: the types built are those the references designate, whatever the order and the cycles."""
import gc

from harness import gen
from harness.objmodel import KInt, KStr, KNum, KDate, KBool, KEnum, same, plain


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    from ngoschema.loaders.schemas import load_schema
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.protocols import ObjectProtocol, ArrayProtocol
    from ngoschema import types
    REFUSED = (ConversionError, InvalidValue)
    run.rule = 'a distinct non-trivial case is a (set of documents with at least 6 definitions, load order)'
    run.assumptions = ['references designate definitions which exist', 'objects do not extend one another in cycles']
    run.require(aliased=3140, arrays=1010, beside=1, crossed=50, extended=11, identity=2640, read=4000, recursive=1390,
                redefined=1, refused=180, siblings=20, unmodified=11)
    KINDS = [KInt, KInt, KStr, KNum, KDate, KBool, KEnum]

    class Defs:
        """definitions spread over one or two documents, any of which may refer to any other"""

        def __init__(self, c):
            rng = c.rng
            self.c = c
            self.docs = [gen.uid(c, 'doc')]
            if rng.random() < .5:
                self.docs.append(gen.uid(c, 'other'))
            self.kind, self.schema, self.doc, self.what = {}, {}, {}, {}
            prims = ['P%i' % i for i in range(rng.randint(1, 3))]
            alias = ['Al%i' % i for i in range(rng.randint(1, 3))]
            refined = ['Re%i' % i for i in range(rng.randint(0, 2))]
            arrs = ['Li%i' % i for i in range(rng.randint(1, 2))]
            leafs = ['Le%i' % i for i in range(rng.randint(1, 2))]
            objs = ['Ob%i' % i for i in range(rng.randint(2, 4))]
            exts = ['Ex%i' % i for i in range(rng.randint(0, 2))]
            for n in prims + alias + refined + arrs + leafs + objs + exts:
                self.doc[n] = rng.choice(self.docs)
            for n in prims:
                self.what[n] = ('prim', rng.choice(KINDS)(rng))
                self.schema[n] = dict(self.what[n][1].schema)
            for i, n in enumerate(alias):
                t = rng.choice(prims + alias[:i])
                self.what[n] = ('alias', t)
                self.schema[n] = {'$ref': self.ref(n, t)}
            for n in refined:
                t = rng.choice(prims + alias)
                self.what[n] = ('alias', t)
                self.schema[n] = {'$ref': self.ref(n, t), rng.choice(['description', 'title', '$comment']): 'some words'}
            scalars = prims + alias + refined
            for n in leafs:
                props = {'s%i' % i: self.scalar(n, scalars) for i in range(rng.randint(1, 3))}
                self.obj(n, props)
            for n in arrs:
                t = rng.choice(scalars + objs + leafs)
                self.what[n] = ('array', ('ref', t))
                self.schema[n] = {'type': 'array', 'items': {'$ref': self.ref(n, t)}}
            for n in objs:
                props = {}
                for i in range(rng.randint(2, 5)):
                    k = rng.random()
                    if k < .35:
                        props['s%i' % i] = self.scalar(n, scalars)
                    elif k < .65:
                        t = rng.choice(objs + objs + leafs)
                        props['o%i' % i] = ('ref', t), self.refs(n, t)
                    elif k < .8:
                        t = rng.choice(arrs)
                        props['l%i' % i] = ('ref', t), self.refs(n, t)
                    elif k < .9:
                        t = rng.choice(objs + leafs)
                        props['m%i' % i] = ('array', ('ref', t)), {'type': 'array', 'items': {'$ref': self.ref(n, t)}}
                    else:
                        # properties along the reference are added to those of the referenced object
                        t = rng.choice(leafs)
                        kind = rng.choice(KINDS)(rng)
                        own = dict(self.what[t][1], own=('prim', kind))
                        props['x%i' % i] = ('more', t, own), {'$ref': self.ref(n, t), 'properties': {'own': dict(kind.schema)}}
                        c.hit('siblings')
                self.obj(n, props)
            for n in exts:
                t = rng.choice(leafs)
                props = {'e0': self.scalar(n, scalars)}
                self.obj(n, props)
                self.schema[n]['extends'] = [self.ref(n, t)]
                self.what[n] = ('object', dict(self.what[t][1], **self.what[n][1]))
                c.hit('extended')
            self.names = prims + alias + refined + arrs + leafs + objs + exts
            self.objs = objs + exts + leafs

        def obj(self, n, props):
            self.what[n] = ('object', {k: w for k, (w, s) in props.items()})
            self.schema[n] = {'type': 'object', 'properties': {k: s for k, (w, s) in props.items()}}

        def ref(self, n, t):
            rng = self.c.rng
            if self.doc[n] == self.doc[t]:
                return rng.choice(['', '', self.doc[t]]) + '#/$defs/' + t
            self.c.hit('crossed')
            return self.doc[t] + '#/$defs/' + t

        def refs(self, n, t):
            s = {'$ref': self.ref(n, t)}
            if self.c.rng.random() < .25:
                s['description'] = 'some words'
            return s

        def scalar(self, n, scalars):
            rng = self.c.rng
            if rng.random() < .4:
                k = rng.choice(KINDS)(rng)
                return ('prim', k), dict(k.schema)
            t = rng.choice(scalars)
            s = {'$ref': self.ref(n, t)}
            k = rng.random()
            if k < .2:
                s['description'] = 'some words'
            elif k < .4:
                kind = self.resolve(('ref', t))[1]
                v = kind.typed(rng)
                s['default'] = v if isinstance(v, (str, int, bool)) else str(v)
                self.c.hit('siblings')
                return ('default', t, v), s
            return ('ref', t), s

        def resolve(self, w):
            while w[0] in ('ref', 'alias', 'default'):
                w = self.what[w[1]]
                if w[0] == 'alias':
                    self.c.hit('aliased')
            return w

        def uri(self, n):
            return self.doc[n] + '#/$defs/' + n

        def register(self):
            for d in self.docs:
                load_schema({'$id': d, '$defs': {n: self.schema[n] for n in self.names if self.doc[n] == d}})

        def value(self, w, depth=0):
            """(raw, model): the model of an object holds only what was given"""
            rng = self.c.rng
            w = self.resolve(w)
            if w[0] == 'prim':
                v = w[1].typed(rng)
                return w[1].raw(rng, v), v
            if w[0] == 'array':
                l = [self.value(w[1], depth + 1) for _ in range(rng.randint(0, 3 if depth < 2 else 1))] if depth < 4 else []
                return [r for r, v in l], [v for r, v in l]
            props = w[2] if w[0] == 'more' else w[1]
            raw, v = {}, {}
            for k, p in props.items():
                q = self.resolve(p)
                if q[0] == 'prim' and rng.random() < .8 or q[0] != 'prim' and rng.random() < (.8 if depth < 4 else 0):
                    raw[k], v[k] = self.value(p, depth + 1)
            return raw, v

        def check(self, x, w, v, what, depth=0):
            c = self.c
            q = self.resolve(w)
            if q[0] == 'prim':
                c.expect(same(x, v), '%s reads %r, expected %r', what, x, v)
                c.hit('read')
                return
            if q[0] == 'array':
                c.expect(isinstance(x, ArrayProtocol), '%s is not an array: %r', what, x)
                c.equal(len(x), len(v), '%s: length', what)
                for i, y in enumerate(v):
                    self.check(x[i], q[1], y, '%s[%i]' % (what, i), depth + 1)
                c.hit('arrays')
                return
            c.expect(isinstance(x, ObjectProtocol), '%s is not an object: %r', what, x)
            if w[0] == 'ref':
                cls = type_builder.load(self.uri(w[1]))
                c.expect(isinstance(x, cls), '%s is %r, expected an object of %r', what, type(x), cls)
                c.hit('identity')
            if depth > 2:
                c.hit('recursive')
            props = q[2] if q[0] == 'more' else q[1]
            for k, y in v.items():
                self.check(x[k], props[k], y, '%s.%s' % (what, k), depth + 1)
            for k, p in props.items():
                if p[0] == 'default' and k not in v:
                    c.expect(same(x[k], p[2]), '%s.%s unset reads %r, its default along the reference is %r', what, k, x[k], p[2])

        def spoil(self, w, raw, depth=0):
            """the raw value with one refused value somewhere, or None"""
            rng = self.c.rng
            w = self.resolve(w)
            if w[0] == 'prim':
                return w[1].bad(rng)
            if w[0] == 'array':
                for i in rng.sample(range(len(raw)), len(raw)):
                    b = self.spoil(w[1], raw[i], depth + 1)
                    if b is not None:
                        return raw[:i] + [b] + raw[i + 1:]
                return None
            props = w[2] if w[0] == 'more' else w[1]
            for k in rng.sample(sorted(raw), len(raw)):
                b = self.spoil(props[k], raw[k], depth + 1)
                if b is not None:
                    return dict(raw, **{k: b})

    @run.workload('documents', quick=45, thorough=2500)
    def _(c):
        rng = c.rng
        d = Defs(c)
        d.register()
        c.sig({n: d.schema[n] for n in d.names})
        order = rng.sample(d.names, len(d.names))
        c.log(order)
        keep = repr(d.schema)
        types_ = {}
        for n in order:
            if rng.random() < .7:
                types_[n] = type_builder.load(d.uri(n))
        for n in order:
            t = type_builder.load(d.uri(n))
            c.expect(types_.setdefault(n, t) is t, '%s is loaded as another type the second time', n)
            c.expect(type_builder.load(d.uri(n)) is t, '%s is loaded as another type the second time', n)
        for n in d.objs + rng.sample(d.names, 3):
            for rep in range(2):
                w = ('ref', n)
                raw, v = d.value(w)
                c.log(n, raw)
                x = types_[n](raw)
                d.check(x, w, v, n)
                if n in d.objs:
                    # the same through every way of giving a value
                    y = types_[n]()
                    for k in raw:
                        y[k] = raw[k]
                    d.check(y, w, v, n + ' set')
                    for k in raw:
                        if isinstance(x[k], (ObjectProtocol, ArrayProtocol)):
                            y[k] = x[k]
                    d.check(y, w, v, n + ' set from objects')
                    z = types_[n](x.do_serialize())
                    d.check(z, w, v, n + ' serialized')
                bad = d.spoil(w, raw)
                if bad is not None:
                    def build():
                        b = types_[n](bad)
                        plain(b)
                    er = c.raises(build, '%s from %r', n, bad)
                    c.expect(isinstance(er, REFUSED), '%s from %r raised %s(%s)', n, bad, type(er).__name__, er)
                    c.hit('refused')
        c.expect(repr(d.schema) == keep, 'the schemas given were %s and are %r', keep, d.schema)
        c.hit('unmodified')

    @run.workload('redefined', quick=40, thorough=600)
    def _(c):
        rng = c.rng
        ident = gen.uid(c) if rng.random() < .5 else None
        name = 'Again%i' % c.index
        made = []
        there = gen.uid(c, 'There')
        gen.pclass({'properties': {'v': {'type': 'integer'}}}, there, 'There')
        c.sig(ident, name, rng.random())
        for rep in range(rng.randint(2, 4)):
            kinds = {k: rng.choice(KINDS)(rng) for k in rng.sample('abcd', rng.randint(2, 4))}
            sub = {k: rng.choice(KINDS)(rng) for k in rng.sample('efg', rng.randint(1, 3))}
            item = rng.choice(KINDS)(rng)
            sch = {'type': 'object', 'properties': dict(
                {k: dict(t.schema) for k, t in kinds.items()},
                o={'type': 'object', 'properties': {k: dict(t.schema) for k, t in sub.items()}},
                l={'type': 'array', 'items': dict(item.schema)})}
            for i in range(rng.randint(0, 2)):
                # references with any keywords beside them
                more = {'description': 'what it is', 'title': 'T', 'comment': 'none', 'default': {}}
                sch['properties']['ref%i' % i] = dict({k: more[k] for k in rng.sample(sorted(more), rng.randint(0, 4))}, **{'$ref': there})
                c.hit('beside')
            keep = repr(sch)
            cls = gen.pclass(sch, ident, name)
            c.expect(repr(sch) == keep, 'the schema given has changed to %r', sch)
            made.append((cls, kinds, sub, item))
            # the new definition and all the previous ones keep their own properties
            for i, (cls, kinds, sub, item) in enumerate(made):
                raw, v = {}, {}
                for k, t in kinds.items():
                    v[k] = t.typed(rng)
                    raw[k] = t.raw(rng, v[k])
                v['o'], raw['o'] = {}, {}
                for k, t in sub.items():
                    v['o'][k] = t.typed(rng)
                    raw['o'][k] = t.raw(rng, v['o'][k])
                v['l'] = [item.typed(rng) for _ in range(2)]
                raw['l'] = [item.raw(rng, y) for y in v['l']]
                for k in cls._properties:
                    if k.startswith('ref'):
                        raw[k], v[k] = {'v': '%i' % i}, {'v': i}
                x = cls(raw)
                c.expect(same({k: plain(x[k]) for k in v}, v), 'definition %i of %i of %s reads %r, expected %r', i, len(made),
                         name, plain(x), v)
                c.hit('redefined')

    @run.workload('inline', quick=120, thorough=2000)
    def _(c):
        rng = c.rng
        c.sig(c.index)
        for rep in range(4):
            k = rng.choice(KINDS)(rng)
            v = [k.typed(rng) for _ in range(3)]
            raw = [k.raw(rng, x) for x in v]
            how = rng.choice(['array', 'object', 'pattern', 'additional', 'tuple'])
            s = dict(k.schema)
            if how == 'array':
                t, r, w = types.Array(items=s), raw, v
            elif how == 'tuple':
                t, r, w = types.Array(items=[dict(s), {'type': 'string'}]), [raw[0], 'x'], [v[0], 'x']
            elif how == 'object':
                t, r, w = types.Object(properties={'x': s}), {'x': raw[0]}, {'x': v[0]}
            elif how == 'pattern':
                t, r, w = types.Object(patternProperties={'^x': s}), {'xyz': raw[0]}, {'xyz': v[0]}
            else:
                t, r, w = types.Object(additionalProperties=s), {'q': raw[0]}, {'q': v[0]}
            x = t(r)
            c.expect(same(plain(x), w), 'inline %s of %r gives %r, expected %r', how, s, x, w)
            c.hit('inline')
            if isinstance(r, dict):
                # given by keywords, or nothing at all
                x = t(**r)
                c.expect(same(plain(x), w), 'inline %s of keywords %r gives %r, expected %r', how, r, x, w)
                for e in ({}, None):
                    x = t(e)
                    c.expect(set(x) == ({'x'} if how == 'object' else set()), 'inline %s of %r gives %r', how, e, x)
                c.hit('keywords')
            del t, x
            if rng.random() < .1:
                gc.collect()

    @run.workload('late', quick=25, thorough=300)
    def _(c):
        rng = c.rng
        a, b = gen.uid(c, 'a'), gen.uid(c, 'b')
        k = rng.choice(KINDS)(rng)
        c.sig(a, k.schema)
        sch = {'type': 'object', 'properties': {'x': {'$ref': b + '#/$defs/T'}, 'y': {'type': 'integer'}}}
        load_schema({'$id': a, '$defs': {'A': sch, 'H': {'type': 'object', 'properties': {'a': {'$ref': '#/$defs/A'}}}}})
        first = rng.choice(['A', 'H'])
        c.raises(lambda: type_builder.load(a + '#/$defs/' + first), 'reference to an unknown document')
        load_schema({'$id': b, '$defs': {'T': dict(k.schema)}})
        v = k.typed(rng)
        H = type_builder.load(a + '#/$defs/H')
        x = H(a={'x': k.raw(rng, v), 'y': '3'})
        c.expect(same(x.a.x, v) and same(x.a.y, 3), 'after the document was registered: %r, expected %r', x, v)
        c.hit('late')
