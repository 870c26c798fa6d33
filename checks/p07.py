# -*- coding: utf-8 -*-
"""P07 - derived values are never stale."""
from harness import gen, lits


def register(run):
    from ngoschema.exceptions import InvalidValue
    from ngoschema.decorators import depend_on_prop
    run.rule = 'a distinct non-trivial case is a (dependency graph with at least 2 derived properties, history of at least 6 operations)'
    run.assumptions = ['dependency graphs have no cycle', 'a getter declares in the schema dependencies what it reads']
    run.require(chain=670, decorated=10, dotted=80, form=100, fresh=2040, getter=280, inplace=70, invalid=12, propagated=240,
                recovered=1, relit=170)

    class Graph:

        def __init__(self, c, getters):
            rng = c.rng
            self.c, self.rng = c, rng
            self.ints = ['i%i' % i for i in range(rng.randint(1, 3))]
            self.strs = ['s%i' % i for i in range(rng.randint(1, 3))]
            if rng.random() < .4:
                # names of builtins and of globals of the templates
                self.ints[-1], self.strs[-1] = rng.sample(['id', 'type', 'format', 'range', 'list', 'hash', 'dict', 'pow'], 2)
            self.base = {n: rng.randint(-9, 20) for n in self.ints}
            self.base.update({n: gen.word(rng, 5) for n in self.strs})
            self.base['xs'] = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
            self.base['ps'] = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
            self.oq = gen.word(rng, 4)
            self.derived = {}       # name -> (text or None for a getter, names, f); in topological order
            self.kind = {}
            self.bound = {}     # name of a derived integer nothing else reads -> its minimum
            for i in range(rng.randint(2, 6)):
                self.derived['d%i' % i] = None
                self.kind['d%i' % i] = rng.choice(['integer', 'string'])
            for n in self.derived:
                self.derived[n] = self.getter(n) if getters and rng.random() < .4 else self.literal(n)
            self.plain = {}
            if not getters and rng.random() < .3:
                last = [n for n in self.derived if not any(n in d[1] for d in self.derived.values())]
                last = [n for n in last if self.kind[n] == 'integer']
                if last:
                    n = rng.choice(last)
                    self.bound[n] = self.env()[n] - rng.randint(0, 6)

        def earlier(self, name, kind):
            out = list(self.ints if kind == 'integer' else self.strs)
            for n in self.derived:
                if n == name:
                    break
                if self.kind[n] == kind and n not in getattr(self, 'bound', ()):
                    out += [n, n]
            return out

        def literal(self, name):
            rng = self.rng
            ints, strs = self.earlier(name, 'integer'), self.earlier(name, 'string')
            if self.kind[name] == 'integer':
                m = rng.choice(ints)
                forms = [
                    ('len(xs)+%s' % m, {'xs', m}, lambda e: len(e['xs']) + e[m]),
                    ('sum(x+1 for x in xs)', {'xs'}, lambda e: sum(x + 1 for x in e['xs'])),
                    ('max([x for x in this.xs if x > 2] + [%s])' % m, {'xs', m}, lambda e: max([x for x in e['xs'] if x > 2] + [e[m]])),
                    ('sum(%s for %s in xs)' % (m, m), {'xs'}, lambda e: sum(e['xs'])),
                    ('sum([%s for %s in xs] + [this.%s])' % (m, m, m), {'xs', m}, lambda e: sum(e['xs']) + e[m]),
                    ('sum(z.v for z in ps)', {'ps'}, lambda e: sum(e['ps'])),
                    ('len(this.ps) * 3', {'ps'}, lambda e: len(e['ps']) * 3),
                    ('ps[0].v if ps else this.%s' % m, {'ps', m}, lambda e: e['ps'][0] if e['ps'] else e[m]),
                    ('sum(map(lambda z, k=%s: z + k, xs))' % m, {'xs', m}, lambda e: sum(x + e[m] for x in e['xs'])),
                    ("this['%s'] + 1" % m, {m}, lambda e: e[m] + 1),
                    ("this.get('%s') * 2" % m, {m}, lambda e: e[m] * 2),
                    ("len('%s') + this.%s" % (rng.choice(self.ints), m), {m}, None),
                ]
                if rng.random() < .4:
                    text, names, f = rng.choice(forms)
                    if f is None:
                        l = len(text.split("'")[1])
                        f = lambda e: l + e[m]
                    self.c.hit('form')
                    return '`' + text, names, f
                t, n, f = lits.int_expr(rng, ints, rng.randint(1, 3))
                return '`' + t, n, f
            k = rng.random()
            m, i = rng.choice(strs), rng.choice(ints)
            join = lambda l: ''.join('%s,' % x for x in l)
            forms = [
                ('`o.q.upper()', {'o.q'}, lambda e: e['o.q'].upper()),
                ("`o['q'] + this['%s']" % m, {'o.q', m}, lambda e: e['o.q'] + e[m]),
                ("`o.get('q')", {'o.q'}, lambda e: e['o.q']),
                ('{{o.q}}/{{%s}}' % m, {'o.q', m}, lambda e: e['o.q'] + '/' + e[m]),
                ("{{o['q']}}{{this['%s']}}" % m, {'o.q', m}, lambda e: e['o.q'] + e[m]),
                ("{{o.get('q')}}-{{this.get('%s')}}" % m, {'o.q', m}, lambda e: e['o.q'] + '-' + e[m]),
                ("{%% set k = '%s' %%}{{this[k]}}" % m, {m}, lambda e: e[m]),
                ('{%% for %s in xs %%}{{%s}},{%% endfor %%}{{%s}}' % (m, m, m), {'xs', m}, lambda e: join(e['xs']) + e[m]),
                ('{%% for %s in xs %%}{{%s}},{%% endfor %%}' % (i, i), {'xs'}, lambda e: join(e['xs'])),
                ('{%% set %s = this.%s + 1 %%}{{%s}}' % (i, i, i), {i}, lambda e: str(e[i] + 1)),
                ('{% for z in this.ps %}{{z.v}},{% endfor %}', {'ps'}, lambda e: join(e['ps'])),
                ('{{ps|length}}{{this.%s}}' % m, {'ps', m}, lambda e: '%i%s' % (len(e['ps']), e[m])),
                ('{%% if ps %%}{{ps[0].v}}{%% else %%}{{%s}}{%% endif %%}' % m, {'ps', m}, lambda e: str(e['ps'][0]) if e['ps'] else e[m]),
                ("`'%s' + %s" % (rng.choice(self.strs), m), {m}, None),
            ]
            if k < .4:
                text, names, f = rng.choice(forms)
                if f is None:
                    l = text.split("'")[1]
                    f = lambda e: l + e[m]
                self.c.hit('form')
                return text, names, f
            if k < .6:
                t, n, f = lits.str_expr(rng, strs, ints)
                return '`' + t, n, f
            return lits.template(rng, strs, ints, ['xs'])

        def getter(self, name):
            rng = self.rng
            pool = self.earlier(name, self.kind[name])
            names = set(rng.sample(pool, rng.randint(1, min(3, len(pool)))))
            if rng.random() < .3:
                # reads of collections
                if self.kind[name] == 'integer':
                    return None, {'xs'}, lambda e: sum(e['xs']) + len(e['xs'])
                return None, {'ps'}, lambda e: ':'.join(str(v) for v in e['ps'])
            if self.kind[name] == 'integer':
                return None, names, lambda e: sum(2 * e[n] for n in sorted(names))
            return None, names, lambda e: ':'.join(e[n] for n in sorted(names))

        def build(self, lazy):
            rng = self.rng
            props = {n: {'type': 'integer'} for n in self.ints}
            props.update({n: {'type': 'string'} for n in self.strs})
            props['xs'] = {'type': 'array', 'items': {'type': 'integer'}}
            props['ps'] = {'type': 'array', 'items': {'type': 'object', 'properties': {'v': {'type': 'integer'}, 'w': {'type': 'string'}}}}
            props['o'] = {'type': 'object', 'properties': {'q': {'type': 'string'}, 'r': {'type': 'string'}}}
            attrs, deps = {}, {}
            decorated = {n for n in self.derived if rng.random() < .4}
            self.dft = set()
            for n, (text, names, f) in self.derived.items():
                props[n] = {'type': self.kind[n]}
                if n in self.bound:
                    props[n]['minimum'] = self.bound[n]
                if text is None:
                    if n not in decorated:
                        deps[n] = sorted(names)
                    if names == {'xs'}:
                        attrs['get_' + n] = lambda self_: sum(self_.xs) + len(self_.xs)
                    elif names == {'ps'}:
                        attrs['get_' + n] = lambda self_: ':'.join(str(z.v) for z in self_.ps)
                    elif self.kind[n] == 'integer':
                        attrs['get_' + n] = lambda self_, names=names: sum(2 * self_[x] for x in sorted(names))
                    else:
                        attrs['get_' + n] = lambda self_, names=names: ':'.join(self_[x] for x in sorted(names))
                    if n in decorated:
                        attrs['get_' + n] = depend_on_prop(*sorted(names))(attrs['get_' + n])
                        self.c.hit('decorated')
                elif rng.random() < .3:
                    props[n]['default'] = text
                    self.dft.add(n)
            items = list(props.items())
            rng.shuffle(items)
            schema = {'properties': dict(items), 'aliases': {'al_' + n: n for n in self.ints[:2] + self.strs[:1]}}
            if deps:
                schema['dependencies'] = deps
            if lazy is not None:
                schema['lazyLoading'] = lazy
            self.props = [k for k, _ in items]
            bases = ()
            if rng.random() < .4:
                # declared by a class and those it extends, dependencies of a property by several of them
                for i in range(rng.randint(1, 2)):
                    up = {'properties': {k: dict(v) for k, v in schema['properties'].items() if rng.random() < .6}}
                    up_deps = {k: rng.sample(v, rng.randint(0, len(v))) for k, v in schema.get('dependencies', {}).items() if k in up['properties']}
                    if up_deps:
                        up['dependencies'] = {k: v for k, v in up_deps.items() if v}
                        schema['dependencies'] = {k: [n for n in v if n not in up_deps.get(k, ())] or v[:1]
                                                  for k, v in schema['dependencies'].items()}
                    if lazy is not None:
                        up['lazyLoading'] = lazy
                    up_attrs = {k: attrs.pop(k) for k in list(attrs) if k[4:] in up['properties'] and rng.random() < .6}
                    for k in up['properties']:
                        if rng.random() < .7:
                            del schema['properties'][k]
                    bases += (gen.pclass(up, gen.uid(self.c, 'U%i' % i), 'U%i' % i, **up_attrs), )
                self.c.hit('bases')
            self.A = gen.pclass(schema, gen.uid(self.c), bases=bases, **attrs)
            kw = [(k, v) for k, v in self.base.items() if k != 'ps'] + [('ps', [{'v': v} for v in self.base['ps']]), ('o', {'q': self.oq, 'r': 'rr'})]
            kw += [(n, d[0]) for n, d in self.derived.items() if d[0] is not None and n not in self.dft]
            rng.shuffle(kw)
            self.a = self.A(**dict(kw)) if rng.random() < .5 else self.A(dict(kw))

        def env(self):
            e = dict(self.base)
            e['o.q'] = self.oq
            for n, (text, names, f) in self.derived.items():
                e[n] = self.plain[n] if n in self.plain else f(e)
            return e

        def set(self):
            """change one thing; -> names that were changed"""
            rng, a = self.rng, self.a
            k = rng.random()
            if k < .12:
                self.oq = gen.word(rng, 4)
                way = rng.choice(['attr', 'item', 'dotted', 'replace'])
                self.c.log('set o.q', way, self.oq)
                if way == 'attr':
                    a.o.q = self.oq
                elif way == 'item':
                    a['o']['q'] = self.oq
                elif way == 'dotted':
                    a['o.q'] = self.oq
                else:
                    a.o = {'q': self.oq, 'r': gen.word(rng)}
                self.c.hit('dotted')
                return 'o.q'
            if k < .24:
                return self.change(rng.choice(['xs', 'ps']))
            if k < .75:
                n = rng.choice(self.ints + self.strs)
                v = rng.randint(-9, 20) if n in self.ints else gen.word(rng, 5)
                way = rng.choice(['attr', 'item', 'alias', 'update', 'raw'])
                self.base[n] = v
                self.c.log('set', n, way, v)
                if way == 'alias' and n in self.ints[:2] + self.strs[:1]:
                    if rng.random() < .5:
                        a['al_' + n] = v
                    else:
                        setattr(a, 'al_' + n, v)
                elif way == 'item':
                    a[n] = v
                elif way == 'update':
                    m = rng.choice(self.ints + self.strs)
                    if m != n:
                        w = rng.randint(-9, 20) if m in self.ints else gen.word(rng, 5)
                        self.base[m] = w
                        a.update({n: v, m: w})
                    else:
                        a.update({n: v})
                elif way == 'raw' and n in self.ints:
                    setattr(a, n, str(v))
                else:
                    setattr(a, n, v)
                return n
            ds = [n for n, d in self.derived.items() if d[0] is not None and n not in self.bound]
            if not ds:
                return None
            n = rng.choice(ds)
            if rng.random() < .5:
                v = rng.randint(-9, 20) if self.kind[n] == 'integer' else gen.word(rng, 5)
                self.plain[n] = v
                self.c.log('plain', n, v)
            else:
                self.plain.pop(n, None)
                self.derived[n] = d = self.literal(n)
                v = d[0]
                self.c.log('literal', n, v)
            self.c.hit('relit')
            if rng.random() < .5:
                a[n] = v
            else:
                setattr(a, n, v)
            return n

        def change(self, n):
            """replace or modify in place a collection"""
            rng, a, l = self.rng, self.a, self.base[n]
            item = (lambda v: {'v': v}) if n == 'ps' else (lambda v: v)
            v = rng.randint(0, 9)
            way = rng.choice(['set', 'append', 'insert', 'setitem', 'del', 'extend'] + ['held'] * 2 * (n == 'ps'))
            if not l and way in ('setitem', 'del', 'held'):
                way = 'append'
            i = rng.randrange(len(l)) if l else 0
            self.c.log(n, way, i, v)
            if way == 'set':
                self.base[n] = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
                setattr(a, n, [item(x) for x in self.base[n]])
                return n
            arr = getattr(a, n) if rng.random() < .5 else a[n]
            if way == 'append':
                l.append(v)
                arr.append(item(v))
            elif way == 'insert':
                l.insert(i, v)
                arr.insert(i, item(v))
            elif way == 'setitem':
                l[i] = v
                arr[i] = item(v)
            elif way == 'del':
                del l[i]
                del arr[i]
            elif way == 'extend':
                l += [v, v + 1]
                arr.extend([item(v), item(v + 1)])
            else:
                l[i] = v
                if rng.random() < .5:
                    arr[i].v = v
                else:
                    a['%s[%i].v' % (n, i)] = v
            self.c.hit('inplace')
            return n

        def verify(self, changed, names=None):
            rng, a, c = self.rng, self.a, self.c
            e = self.env()
            names = list(self.derived) if names is None else names
            rng.shuffle(names)
            for n in names:
                way = rng.choice(['attr', 'item', 'get', 'mapping', 'dict'])
                read = {'attr': lambda: getattr(a, n), 'item': lambda: a[n], 'get': lambda: a.get(n),
                        'mapping': lambda: dict(a.items())[n], 'dict': lambda: dict(a)[n]}[way]
                if n in self.bound and e[n] < self.bound[n]:
                    c.raises(lambda: getattr(a, n), '%s derives %r, below its minimum %r', n, e[n], self.bound[n],
                             kinds=InvalidValue)
                    c.hit('invalid')
                    self.was_bad = True
                    continue
                if any(m in self.bound and e[m] < self.bound[m] for m in self.bound) and way in ('mapping', 'dict'):
                    read = lambda: a[n]
                c.equal(read(), e[n], 'property %s (%r) read by %s after a change of %s', n,
                        self.derived[n][0] if n not in self.plain else self.plain[n], way, changed)
                c.hit('fresh')
                if n in self.bound and self.was_bad:
                    c.hit('recovered')
                    self.was_bad = False
                d = self.derived[n]
                if changed in d[1]:
                    c.hit('propagated')
                if any(m in self.derived for m in d[1]):
                    c.hit('chain')
                if d[0] is None:
                    c.hit('getter')

    def play(c, getters):
        g = Graph(c, getters)
        g.was_bad = False
        g.build(c.rng.choice([None, None, True, False]) if not getters else None)
        n = c.rng.randint(6, 14)
        c.sig(tuple((k, d[0]) for k, d in g.derived.items()), n)
        if c.rng.random() < .7:
            g.verify('construction')
        for _ in range(n):
            ch = g.set()
            if c.rng.random() < .3:
                ch = g.set()
            k = c.rng.random()
            if k < .75:
                g.verify(ch)
            elif k < .9:
                g.verify(ch, [c.rng.choice(list(g.derived))])
        g.verify('the end')
        if not g.bound:
            want = g.env()
            s = g.a.do_serialize(no_defaults=False)
            for name in g.derived:
                c.equal(s.get(name), want[name], 'serialized %s', name)
            # a copy is derived from its own values
            b = g.a.copy()
            before = g.env()
            n = c.rng.choice(g.ints)
            keep = g.base[n]
            b[n] = g.base[n] = keep + 11
            want = g.env()
            for name in g.derived:
                c.equal(b[name], want[name], 'copy, property %s after a change of %s in the copy', name, n)
                c.equal(g.a[name], before[name], 'original, property %s after a change of %s in the copy', name, n)
            g.base[n] = keep

    @run.workload('literals', quick=90, thorough=3000)
    def _(c):
        play(c, False)

    @run.workload('getters', quick=45, thorough=1500)
    def _(c):
        play(c, True)
