# -*- coding: utf-8 -*-
"""P39 - accessor methods (set_x, get_x, del_x) follow the values of the properties."""
from harness import gen


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    run.rule = 'a distinct non-trivial case is a (class with accessors, history of at least 8 operations)'
    run.assumptions = ['the accessors are methods given to classes built from a schema (or inherited from a mixin), not overridden in plain '
                       'subclasses', 'a setter assigns properties which the constructor is not given']
    run.require(chain=50, child=20, removed=80, twice=14, again=10, literal=30, derived=210, failed=20, kept=10, lazy=30, mixin=20,
                overridden=18, own=20, quiet=1220, refused=60, set=550)
    REFUSED = (ConversionError, InvalidValue)

    class Model:
        """a class with accessors which record their calls, and what is expected of them"""

        def __init__(self, c, lazy):
            rng = c.rng
            self.c, self.rng, self.lazy = c, rng, lazy
            self.calls, self.want = [], []
            self.ints = ['i%i' % k for k in range(rng.randint(1, 3))] + rng.choice([[], ['n-x']])
            self.kinds = {n: 'integer' for n in self.ints}
            self.kinds.update({'s%i' % k: 'string' for k in range(rng.randint(0, 2))})
            self.derived = {}
            for k in range(rng.randint(0, 2)):
                self.derived['d%i' % k] = (rng.choice(self.ints[:1]), rng.randint(1, 9))
            self.aliases = {'al': rng.choice(list(self.kinds))}
            self.defaults, self.maxi = {}, {}
            names = list(self.kinds) + list(self.derived)
            props = {n: {'type': t} for n, t in self.kinds.items()}
            for n in self.kinds:
                if self.kinds[n] == 'integer' and rng.random() < .3:
                    self.maxi[n] = props[n]['maximum'] = 50
                if rng.random() < .3:
                    self.defaults[n] = props[n]['default'] = self.value(n)
            for n, (m, k) in self.derived.items():
                props[n] = {'type': 'integer', 'default': '`%s*%i' % (m, k)}
            self.setters = {n for n in names if rng.random() < .75}
            self.deleters = {n for n in names if rng.random() < .75}
            attrs = {}
            for n in names:
                if n in self.setters:
                    attrs['set_' + n.replace('-', '_')] = self.setter(n, n)
                if n in self.deleters:
                    attrs['del_' + n.replace('-', '_')] = self.deleter(n)
            self.required = {rng.choice(list(self.kinds))} if rng.random() < .3 else set()
            schema = {'properties': props, 'aliases': self.aliases, 'required': list(self.required)}
            if lazy is not None:
                schema['lazyLoading'] = lazy
            how = rng.choice(['own', 'child', 'mixin', 'overridden'])
            if how == 'own':
                self.C = gen.pclass(schema, gen.uid(c), **attrs)
            elif how == 'mixin':
                self.C = gen.pclass(schema, gen.uid(c), bases=(type('Mixin', (object, ), attrs), ))
            elif how == 'child':
                P = gen.pclass(schema, gen.uid(c), **attrs)
                sch = {'properties': {'own': {'type': 'integer'}}}
                if lazy is not None:
                    sch['lazyLoading'] = lazy
                self.C = gen.pclass(sch, gen.uid(c), 'Child', bases=(P, ))
            else:
                # the accessors of the parent are replaced by those of the child
                stale = {k: self.stale(k) for k in attrs}
                P = gen.pclass(schema, gen.uid(c), **stale)
                sch = {'properties': {'own': {'type': 'integer'}}}
                if lazy is not None:
                    sch['lazyLoading'] = lazy
                self.C = gen.pclass(sch, gen.uid(c), 'Child', bases=(P, ), **attrs)
            if rng.random() < .3:
                # a further descendant declares some properties again
                again = {n: dict(p) for n, p in props.items() if rng.random() < .6}
                sch = {'properties': dict(again, further={'type': 'string'})}
                if lazy is not None:
                    sch['lazyLoading'] = lazy
                self.C = gen.pclass(sch, gen.uid(c), 'Descendant', bases=(self.C, ))
                c.hit('again')
            c.hit(how)
            self.eager = not lazy

        def setter(self, n, name):
            def set_(obj, value):
                # the property already reads as the value which is handed over
                self.calls.append(('set', name, value, obj[name], id(obj)))
            return set_

        def deleter(self, n):
            def del_(obj):
                # the value is still there
                self.calls.append(('del', n, obj.get(n), n in obj, id(obj)))
            return del_

        def stale(self, k):
            def f(obj, *args):
                self.calls.append(('overridden accessor', k, args))
            return f

        def value(self, n):
            return self.rng.randint(-20, 50) if self.kinds[n] == 'integer' else gen.word(self.rng, 5)

        # ---- what is expected
        def expect(self, *names):
            """the setters of these properties have been called, in any order, and nothing else"""
            c, o = self.c, self.o
            want = []
            for n in names:
                if n in self.setters:
                    want.append(('set', n, self.now(n), self.now(n), id(o)))
            got, self.calls[:] = list(self.calls), []
            c.equal(sorted(map(repr, got)), sorted(map(repr, want)), 'calls of accessors (%s)', ', '.join(names))
            if want:
                c.hit('set')
            else:
                c.hit('quiet')

        def now(self, n):
            if n in self.derived and n not in self.vals:
                m, k = self.derived[n]
                return self.vals[m] * k
            return self.vals[n]

    def play(c, lazy):
        rng = c.rng
        m = Model(c, lazy)
        C = m.C
        given = {n: m.value(n) for n in m.kinds if n in m.required or n in [d[0] for d in m.derived.values()] or rng.random() < .6}
        m.vals = dict(m.defaults, **given)
        kw = {n: str(v) if rng.random() < .3 else v for n, v in given.items()}
        c.sig(tuple(m.kinds), tuple(m.derived.items()), tuple(sorted(m.setters)), tuple(sorted(given.items())), lazy)
        c.log('construct', kw)
        m.o = o = C.__new__(C)
        if rng.random() < .5:
            o.__init__(kw)
        else:
            o.__init__(**{k.replace('-', '_'): v for k, v in kw.items()})
        defined = [n for n in m.vals if m.vals[n] is not None]
        pending = set()     # properties which have been assigned and not read since, for lazily loaded objects
        fresh = {n: None for n in m.derived}    # value of derived properties when last read
        if m.eager:
            m.expect(*(defined + list(m.derived)))
            fresh = {n: m.now(n) for n in m.derived}
        else:
            # what is read at construction is not specified
            m.calls.clear()
            for n in list(m.kinds) + list(m.derived):
                o[n]
            m.calls.clear()
            fresh = {n: m.now(n) for n in m.derived}
        deleted = set()

        def names_of(n):
            return [n] + [a for a, k in m.aliases.items() if k == n] + ([n.replace('-', '_')] if '-' in n else [])

        def assign(n, v, way=None):
            way = way or rng.choice(['attr', 'item', 'update', 'setdefault' if n in deleted else 'item'])
            name = rng.choice(names_of(n))
            c.log('assign', n, name, way, v)
            if way == 'attr':
                setattr(o, name, v)
            elif way == 'item':
                o[name] = v
            elif way == 'setdefault':
                o.setdefault(n, v)
            else:
                o.update({name: v})

        def read(n, way=None):
            way = way or rng.choice(['attr', 'item', 'get'])
            c.log('read', n, way)
            name = rng.choice(names_of(n))
            return getattr(o, name.replace('-', '_')) if way == 'attr' else o[name] if way == 'item' else o.get(name)

        def settle(*changed):
            """calls expected after the assignment of properties, then after the reads of derived ones"""
            if m.eager:
                m.expect(*changed)
            else:
                m.calls.clear()
                pending.update(changed)
            for n in rng.sample(sorted(m.derived), len(m.derived)):
                if rng.random() < .3 or m.derived[n][0] in deleted or n in deleted:
                    continue
                was_pending = m.derived[n][0] in pending
                k = len(m.calls)
                c.equal(read(n), m.now(n), 'derived property %s', n)
                if was_pending:
                    # reading it reads the property it is derived from
                    pending.discard(m.derived[n][0])
                    m.calls[:] = [x for x in m.calls if x[1] == n]
                m.expect(*([n] if fresh[n] != m.now(n) else []))
                c.hit('derived' if fresh[n] != m.now(n) else 'quiet')
                fresh[n] = m.now(n)

        for _ in range(rng.randint(8, 16)):
            k = rng.random()
            n = rng.choice(list(m.kinds))
            if k < .4:
                v = m.value(n)
                while not m.eager and v == m.vals.get(n):
                    v = m.value(n)
                deleted.discard(n)
                m.vals[n] = v
                way = rng.random()
                if way < .2:
                    # a literal: its accessors only know its value
                    c.hit('literal')
                    assign(n, '`%i + %i' % (v - 3, 3) if m.kinds[n] == 'integer' else '`%r + %r' % (v[:2], v[2:]))
                else:
                    assign(n, str(v) if way < .4 else v)
                settle(n)
            elif k < .5:
                # several at once
                ns = [x for x in m.kinds if rng.random() < .5]
                vs = {x: m.value(x) for x in ns}
                for x in ns:
                    while not m.eager and vs[x] == m.vals.get(x):
                        vs[x] = m.value(x)
                c.log('update', vs)
                deleted.difference_update(ns)
                m.vals.update(vs)
                o.update(dict(vs))
                settle(*ns)
            elif k < .6 and m.eager:
                # a refused value reaches no setter
                bad = [x for x in m.kinds if m.kinds[x] == 'integer']
                n = rng.choice(bad)
                v = 51 if n in m.maxi and rng.random() < .5 else 'no number'
                c.raises(lambda: assign(n, v, rng.choice(['attr', 'item', 'update'])), '%r is refused', v, kinds=REFUSED)
                m.expect()
                c.hit('refused')
                m.vals[n] = m.value(n)
                deleted.discard(n)
                assign(n, m.vals[n])
                settle(n)
            elif k < .8:
                # reads call nothing, but the setter of what had not been read yet
                if n in deleted:
                    c.raises(lambda: o[n], '%s is deleted', n, kinds=KeyError)
                    m.expect()
                    continue
                v = read(n)
                c.equal(v, m.vals.get(n), 'property %s', n)
                if n in pending:
                    m.expect(n)
                    pending.discard(n)
                    c.hit('lazy')
                else:
                    m.expect()
                c.equal(read(n), m.vals.get(n), 'property %s read again', n)
                m.expect()
            elif k < .95:
                if n in [d[0] for d in m.derived.values()] or n in pending:
                    continue
                way = rng.choice(['attr', 'item', 'pop', 'attr', 'item'])
                name = rng.choice(names_of(n))

                def delete():
                    if way == 'attr':
                        delattr(o, name.replace('-', '_'))
                    elif way == 'item':
                        del o[name]
                    else:
                        o.pop(n)
                c.log('delete', n, name, way)
                if n in m.required:
                    c.raises(delete, '%s is required', n, kinds=(AttributeError, KeyError))
                    m.expect()
                    c.equal(o[n], m.vals[n], 'required property %s which could not be deleted', n)
                    c.hit('kept')
                elif n in deleted:
                    c.raises(delete, '%s is deleted already', n, kinds=(AttributeError, KeyError))
                    m.expect()
                    c.hit('twice')
                else:
                    there = m.vals.get(n)
                    delete()
                    got, m.calls[:] = list(m.calls), []
                    c.equal(got, [('del', n, there, True, id(o))] if n in m.deleters else [], 'calls of accessors when %s is deleted', n)
                    c.expect(n not in o, '%s is still there', n)
                    m.vals.pop(n, None)
                    deleted.add(n)
                    c.hit('removed')
            elif m.eager:
                # a copy, a comparison, a serialization and an iteration call no accessor of the object
                way = rng.choice(['copy', 'eq', 'iter', 'repr'])
                c.log(way)
                if way == 'copy' and not deleted:
                    o.copy()
                elif way == 'eq':
                    o == o
                elif way == 'iter':
                    list(o)
                else:
                    repr(o)
                m.calls[:] = [x for x in m.calls if x[-1] == id(o) and x[1] not in m.derived]
                m.expect()

    @run.workload('eager', quick=150, thorough=4000)
    def _(c):
        play(c, c.rng.choice([None, False]))

    @run.workload('lazy', quick=80, thorough=2500)
    def _(c):
        play(c, True)

    @run.workload('effects', quick=60, thorough=1500)
    def _(c):
        """setters which assign other properties, and accessors which fail"""
        rng = c.rng
        k = rng.randint(1, 4)
        log = []

        def set_p(j):
            def f(self, value):
                log.append((j, value))
                if j < k:
                    self['p%i' % (j + 1)] = value + j
            return f

        class Failed(Exception):
            pass

        def fails(self, value):
            if value > 10:
                raise Failed(value)
            log.append(('f', value))
        props = {'p%i' % j: {'type': 'integer'} for j in range(k + 1)}
        props['f'] = {'type': 'integer'}
        items = list(props.items())
        rng.shuffle(items)
        C = gen.pclass({'properties': dict(items)}, gen.uid(c), set_f=fails, **{'set_p%i' % j: set_p(j) for j in range(k + 1)})
        v = rng.randint(-9, 9)
        c.sig(k, v, tuple(dict(items)))
        if rng.random() < .5:
            o = C(p0=v)
        else:
            o = C()
            o.p0 = v
        for step in range(rng.randint(1, 4)):
            want, x = [], v
            for j in range(k + 1):
                want.append((j, x))
                x += j
            c.equal(log, want, 'setters called one by the other')
            for j, x in want:
                c.equal(o['p%i' % j], x, 'property p%i assigned by the setter of the one before', j)
            c.equal(log, want, 'setters called by reads')
            c.hit('chain')
            log.clear()
            w = rng.randint(-5, 30)
            if w > 10:
                c.raises(lambda: setattr(o, 'f', w), 'the error of a setter is raised', kinds=Failed)
                c.equal(log, [], 'setter which failed')
                c.hit('failed')
            else:
                o['f'] = w
                c.equal((log, o.f), ([('f', w)], w), 'setter of another property')
            log.clear()
            for j in range(k + 1):
                c.equal(o['p%i' % j], want[j][1], 'property p%i after the assignment of another', j)
            v = rng.randint(-9, 9)
            o.p0 = v
