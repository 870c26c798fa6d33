# -*- coding: utf-8 -*-
"""P13 - a class has the properties, accessors, defaults and patterns of all its ancestors, the nearest definition (in the order
of python) winning, however its bases are given and whatever was built first."""
from harness import gen

NAMES = ['a', 'b', 'c', 'd', 'e']
PATTERNS = ['^p_', '^q[0-9]+$', '_z$', '^w:']
PKEYS = {'^p_': ['p_1', 'p_x'], '^q[0-9]+$': ['q1', 'q22'], '_z$': ['m_z', 'n_z'], '^w:': ['w:1', 'w:b']}


def definition(rng):
    """a type, values it accepts with what they become, values it refuses"""
    k = rng.choice(['int', 'min', 'max', 'str', 'pat', 'bool', 'enum', 'num', 'array', 'object'])
    n = rng.randint(0, 50)
    if k == 'int':
        return {'type': 'integer'}, [(n, n), (str(n), n)], ['x', 'y z']
    if k == 'min':
        return {'type': 'integer', 'minimum': n}, [(n, n), (n + 3, n + 3), (str(n + 1), n + 1)], [n - 1, str(n - 5), 'x']
    if k == 'max':
        return {'type': 'integer', 'maximum': n}, [(n, n), (str(n - 2), n - 2)], [n + 1, str(n + 5), 'x']
    if k == 'str':
        return {'type': 'string', 'maxLength': 4}, [(n, str(n)), ('abc', 'abc'), ('', '')], ['abcde']
    if k == 'pat':
        return {'type': 'string', 'pattern': '^[a-c]+$'}, [('abc', 'abc'), ('a', 'a')], ['abd', 'A']
    if k == 'bool':
        return {'type': 'boolean'}, [('true', True), (False, False)], ['perhaps']
    if k == 'enum':
        vs = ['u%i' % n, 'v', 'w']
        return {'type': 'string', 'enum': vs}, [(v, v) for v in vs], ['t', 'x']
    if k == 'num':
        return {'type': 'integer', 'multipleOf': n + 2}, [(n + 2, n + 2), (2 * n + 4, 2 * n + 4)], [n + 3, 'z']
    if k == 'array':
        return {'type': 'array', 'items': {'type': 'integer', 'minimum': n}}, [([n, str(n + 1)], [n, n + 1]), ([], [])], [[n - 1], ['x']]
    return ({'type': 'object', 'properties': {'v': {'type': 'integer', 'minimum': n}}},
            [({'v': str(n)}, {'v': n}), ({'v': n + 1}, {'v': n + 1})], [{'v': n - 1}, {'v': 'x'}])


def plain(v):
    if hasattr(v, 'items'):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) or type(v).__mro__ and hasattr(v, 'append'):
        return [plain(x) for x in v]
    return v


class Node:
    """what a class should be"""

    def __init__(self, name, bases):
        self.name, self.bases = name, bases
        self.py = type(name, tuple(b.py for b in bases) or (object,), {'node': self})
        self.props, self.patterns, self.getters, self.setters, self.methods, self.attrs = {}, {}, {}, {}, {}, {}
        self.required, self.readonly, self.hidden = set(), set(), set()

    def mro(self):
        return [k.node for k in self.py.__mro__ if hasattr(k, 'node')]

    def find(self, what, key):
        return next((getattr(k, what)[key] for k in self.mro() if key in getattr(k, what)), None)

    def union(self, what):
        return set().union(*[getattr(k, what) for k in self.mro()])

    def default(self, name):
        """a default comes with the definition of the property, or with a class attribute, which redefines the property"""
        for k in self.mro():
            if name in k.attrs:
                return k.attrs[name]
            if name in k.props:
                return k.props[name][0].get('default')


def register(run):
    from ngoschema.exceptions import InvalidValue, ConversionError
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    run.rule = 'a distinct non-trivial case is a hierarchy of at least 3 classes with redefined members'
    run.assumptions = ['the bases of a class have a consistent linearization', 'no key matches two patterns',
                       'a redefined property is entirely redefined']
    run.require(classes=400, diamonds=30, several=80, by_extends=80, by_both=9, redefined=250, accepted=1200, refused=700,
                defaults=300, class_defaults=60, getters=150, setters=80, patterns=500, untyped=200, relations=1500, held=80,
                parents_again=110, waiting=60, methods=200, translated=40)

    def hierarchy(c, how):
        rng = c.rng
        n = rng.randint(3, 7)
        nodes = []
        for i in range(n):
            for _ in range(10):
                k = min(len(nodes), rng.choice([0, 1, 1, 2, 2, 3]))
                bs = rng.sample(nodes, k)
                try:
                    x = Node('K%i' % i, bs)
                    break
                except TypeError:
                    continue
            else:
                x = Node('K%i' % i, [])
            nodes.append(x)
            for name in rng.sample(NAMES, rng.randint(0, 3)):
                d = definition(rng)
                if rng.random() < .4 and d[0]['type'] not in ('array', 'object'):
                    d[0]['default'] = rng.choice(d[1])[1]
                c.hit('redefined', any(name in m.props for m in x.mro()[1:]))
                x.props[name] = d
            for p in rng.sample(PATTERNS, rng.randint(0, 1)):
                if not any(p in m.patterns for m in nodes):   # each pattern is defined once
                    x.patterns[p] = definition(rng)
            if rng.random() < .3 and not any('odd-name' in m.props for m in nodes):
                x.props['odd-name'] = definition(rng)
            c.hit('several', len(bs) > 1)
            c.hit('diamonds', any(a is not b and set(a.mro()) & set(b.mro()) for a in bs for b in bs))
        return nodes

    def schema_of(x):
        s = {'type': 'object'}
        if x.props:
            s['properties'] = {k: dict(d[0]) for k, d in x.props.items()}
        if x.patterns:
            s['patternProperties'] = {k: dict(d[0]) for k, d in x.patterns.items()}
        return s

    def judge(c, x, cls, nodes, classes, skip=()):
        rng = c.rng
        c.hit('classes')
        c.equal(set(cls._properties).difference(skip), set().union(*[k.props for k in x.mro()]), 'properties of %s', x.name)
        for y, k in zip(nodes, classes):
            if k is not None:
                c.expect(issubclass(cls, k) == issubclass(x.py, y.py), '%s is a subclass of %s', x.name, y.name)
                c.hit('relations')
        ext = cls._extends
        for y, k in zip(nodes, classes):
            if y in x.bases:
                c.expect(k._id in ext, '%s does not extend %s', x.name, y.name)
        for name in cls._properties:
            if name in skip:
                continue
            sch, goods, bads = x.find('props', name)
            att = name.replace('-', '_')
            c.hit('translated', att != name)
            computed = x.find('getters', name)
            o = cls()
            if computed is None:
                want = x.default(name)
                if want is None and 'enum' in sch:
                    want = sch['enum'][0]
                if sch['type'] not in ('array', 'object'):
                    c.equal(plain(getattr(o, att)), want, 'default of %s.%s', x.name, name)
                    c.equal(plain(o[name]), want, 'default of %s.%s', x.name, name)
                    c.hit('defaults')
                    c.hit('class_defaults', x.find('attrs', name) is not None)
            else:
                c.equal(plain(getattr(o, att)), computed[0], '%s.%s as computed', x.name, name)
                c.hit('getters')
                continue
            setter = x.find('setters', name)
            for raw, want in rng.sample(goods, min(2, len(goods))):
                way = rng.choice(['init', 'attr', 'item', 'dict'])
                del seen[:]
                if way == 'init':
                    o = cls(**{att: raw})
                elif way == 'dict':
                    o = cls({name: raw})
                elif way == 'attr':
                    setattr(o, att, raw)
                else:
                    o[name] = raw
                c.equal(plain(getattr(o, att)), want, '%s.%s set to %r', x.name, name, raw)
                c.equal(plain(o[name]), want, '%s[%s] set to %r', x.name, name, raw)
                c.equal(plain(o.do_serialize().get(name, want)), want, '%s.%s serialized', x.name, name)
                c.expect(type(plain(getattr(o, att))) is type(want) , 'type of %s.%s', x.name, name)
                if setter is not None:
                    c.expect((setter, name) in seen and not any(s for s in seen if s[1] == name and s[0] != setter),
                             'setter called for %s.%s: %r, expected that of %s', x.name, name, seen, setter)
                    c.hit('setters')
                c.hit('accepted')
            bad = rng.choice(bads)

            def give():
                o = cls(**{att: bad}) if rng.random() < .5 else cls()
                if rng.random() < .5:
                    setattr(o, att, bad)
                else:
                    o[name] = bad
                v = getattr(o, att)
                return plain(v)
            c.raises(give, '%s.%s set to %r', x.name, name, bad, kinds=(InvalidValue, ConversionError))
            c.hit('refused')
        mine = {p: k.patterns[p] for k in x.mro() for p in k.patterns}
        for p in PATTERNS:
            key = rng.choice(PKEYS[p])
            if p in mine:
                raw, want = rng.choice(mine[p][1])
                o = cls()
                o[key] = raw
                c.equal(plain(o[key]), want, '%s[%s] set to %r', x.name, key, raw)
                bad = rng.choice(mine[p][2])

                def give():
                    o = cls({key: bad})
                    return plain(o[key])
                c.raises(give, '%s[%s] set to %r', x.name, key, bad, kinds=(InvalidValue, ConversionError))
                c.hit('patterns')
            else:
                o = cls()
                o[key] = 'x y'
                c.equal(plain(o[key]), 'x y', 'additional property %s of %s', key, x.name)
                c.hit('untyped')
        for m in ('m1', 'm2'):
            f = x.find('methods', m)
            if f is not None:
                c.equal(getattr(cls(), m)(), f, 'method %s of %s', m, x.name)
                c.hit('methods')

    seen = []

    @run.workload('classes', quick=90, thorough=4000)
    def _(c):
        """classes with bases, extends, or both"""
        rng = c.rng
        nodes = hierarchy(c, 'classes')
        base = gen.uid(c, 'H')
        classes = []
        c.sig([(x.name, [b.name for b in x.bases], sorted(x.props)) for x in nodes], rng.random())
        for i, x in enumerate(nodes):
            attrs = {}
            for name in set().union(*[k.props for k in x.mro()]):
                att = name.replace('-', '_')
                d = x.find('props', name)
                k = rng.random()
                g = x.find('getters', name)
                if g is not None and g[1] is not d:
                    k = 0   # an inherited accessor for another definition
                elif d[0]['type'] in ('array', 'object'):
                    continue
                if k < .12:
                    v = rng.choice(d[1])[1]
                    x.getters[name] = (v, d)
                    attrs['get_' + att] = (lambda v: lambda self: v)(v)
                elif k < .3:
                    x.setters[name] = x.name
                    attrs['set_' + att] = (lambda s, n: lambda self, value: seen.append((s, n)))(x.name, name)
                elif k < .45:
                    x.attrs[name] = attrs[att] = rng.choice(d[1])[1]
                    if name not in x.props:
                        x.props[name] = d
            for m in ('m1', 'm2'):
                if rng.random() < .3:
                    x.methods[m] = (x.name, m)
                    attrs[m] = (lambda r: lambda self: r)((x.name, m))
            s = schema_of(x)
            for name in list(s.get('properties', {})):
                if name in x.attrs and rng.random() < .5 and x.find('props', name) is not None \
                        and any(name in k.props and k.props[name] is x.props[name] for k in x.mro()[1:]):
                    del s['properties'][name]    # only the class attribute redefines it
            bs = [classes[nodes.index(b)] for b in x.bases]
            # the first bases as classes, the others by their id; together they keep the order
            cut = rng.choice([len(bs), 0] + list(range(1, len(bs))) * 2)
            by_id = bs[cut:]
            if by_id and any(issubclass(b, e) or issubclass(e, b) for b in bs[:cut] for e in by_id):
                cut, by_id = len(bs), []
            if by_id:
                s['extends'] = [b._id for b in by_id]
                c.hit('by_extends')
                c.hit('by_both', cut > 0)
            c.log(x.name, [b.name for b in x.bases], s, sorted(attrs))
            before = repr(s)
            classes.append(gen.pclass(s, '%s/%s' % (base, x.name), x.name, bs[:cut], **attrs))
            c.expect(repr(s) == before, 'the schema given has been modified')
        order = list(range(len(nodes)))
        rng.shuffle(order)
        for i in order:
            judge(c, nodes[i], classes[i], nodes, classes)
        # building children or using them has not changed the parents
        for i in rng.sample(order, 2):
            judge(c, nodes[i], classes[i], nodes, classes)
            c.hit('parents_again')
        # an object of a subclass is taken where its parent is expected, and stays what it is
        for i in range(len(nodes)):
            subs = [j for j in range(len(nodes)) if i != j and issubclass(nodes[j].py, nodes[i].py)]
            if subs and rng.random() < .5:
                H = gen.pclass({'type': 'object', 'properties': {'h': {'$ref': classes[i]._id},
                                                                 'l': {'type': 'array', 'items': {'$ref': classes[i]._id}}}},
                               gen.uid(c, 'Holder'), 'Holder')
                j = rng.choice(subs)
                o = classes[j]()
                h = H(h=o, l=[o])
                c.expect(type(h.h) is classes[j] and isinstance(h.h, classes[i]), 'an object held as its parent class is a %r', type(h.h))
                c.expect(type(h.l[0]) is classes[j], 'an object held in an array of its parent class')
                unrelated = [k for k in range(len(nodes)) if not issubclass(nodes[k].py, nodes[i].py)]
                c.hit('held')

    @run.workload('documents', quick=90, thorough=4000)
    def _(c):
        """definitions which extend and reference one another, loaded in any order"""
        rng = c.rng
        nodes = hierarchy(c, 'documents')
        u = gen.uid(c, 'doc')
        ids = {x: '%s#/$defs/%s' % (u, x.name) for x in nodes}
        defs = {}
        refs = {}
        for x in nodes:
            s = schema_of(x)
            if x.bases:
                s['extends'] = [rng.choice(['', u]) + '#/$defs/' + b.name for b in x.bases]
                c.hit('by_extends')
            if rng.random() < .6:
                # a property of any class, ancestors, descendants or itself
                y = rng.choice(nodes)
                s.setdefault('properties', {})['r_' + x.name] = {'$ref': '#/$defs/' + y.name}
                s['properties']['l_' + x.name] = {'type': 'array', 'items': {'$ref': '#/$defs/' + y.name}}
                refs[x] = y
                c.hit('waiting', issubclass(y.py, x.py))
            defs[x.name] = s
        UriResolver.register_doc({'$defs': defs}, u)
        c.sig([(x.name, [b.name for b in x.bases], sorted(x.props)) for x in nodes], rng.random())
        order = list(nodes)
        rng.shuffle(order)
        c.log([x.name for x in order], defs)
        loaded = {}
        for x in order:
            loaded[x] = type_builder.load(ids[x])
            c.expect(isinstance(loaded[x], type) and loaded[x].__name__ == x.name, 'loaded %r for %s', loaded[x], x.name)
        classes = [loaded[x] for x in nodes]
        for x, y in refs.items():
            x.props['r_' + x.name] = None
            x.props['l_' + x.name] = None
        for x in nodes:
            cls = loaded[x]
            names = set().union(*[k.props for k in x.mro()])
            c.equal(set(cls._properties), names, 'properties of %s', x.name)
            for name in sorted(names):
                if name.startswith('r_'):
                    y = next(k for k in x.mro() if k.name == name[2:])
                    t = refs[y]
                    o = cls({name: {}, 'l_' + y.name: [{}]})
                    for v in (o[name], o['l_' + y.name][0]):
                        c.expect(type(v) is loaded[t], '%s.%s is a %s, expected %s', x.name, name, type(v).__name__, t.name)
                    sub = [k for k in nodes if issubclass(k.py, t.py)]
                    k = rng.choice(sub)
                    v = loaded[k]()
                    o[name] = v
                    c.expect(type(o[name]) is loaded[k], '%s.%s set to a %s is a %s', x.name, name, k.name, type(o[name]).__name__)
                    c.hit('held')
        for x in nodes:
            for k in [k for k in x.props if x.props[k] is None]:
                del x.props[k]
        for x in rng.sample(nodes, len(nodes)):
            cls = loaded[x]
            judge(c, x, cls, nodes, classes, {n for n in cls._properties if n.startswith(('r_', 'l_'))})
