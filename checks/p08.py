# -*- coding: utf-8 -*-
"""P08 - access restrictions: read only, required and not serialized properties."""
from harness import gen
from harness.objmodel import Spec, same


def register(run):
    run.rule = 'a distinct non-trivial case is a (class hierarchy with restrictions, history of refused accesses)'
    run.assumptions = ['restrictions are declared by the schema of the class or of a base class']
    run.require(constructed=80, hidden=30, inherited=60, nested=180, parents=30, readonly=350, redeclared=110, required=560)

    def setters(a, name, v):
        """every way of writing a name"""
        out = {'item': lambda: a.__setitem__(name, v), 'update': lambda: a.update({name: v})}
        if name.isidentifier():
            out['attr'] = lambda: setattr(a, name, v)
            out['kw'] = lambda: a.update(**{name: v})
        return out

    def deleters(a, name, trans):
        out = {'item': lambda: a.__delitem__(name), 'pop': lambda: a.pop(name), 'popd': lambda: a.pop(name, None)}
        if name == trans:
            out['attr'] = lambda: delattr(a, name)
        return out

    @run.workload('restrictions', quick=110, thorough=2500)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, readonly=.35, required=.5, lazy=rng.choice([None, None, True, False]))
        hidden = {k for k in spec.kinds if k not in spec.required and rng.random() < .3}
        sch = spec.schema(rng)
        if hidden:
            sch['notSerialized'] = sorted(hidden)
        A = gen.pclass(sch, gen.uid(c), 'Base')
        level = rng.randint(0, 2)
        for i in range(level):
            ext = {'properties': {'extra%i' % i: {'type': 'string'}}}
            if rng.random() < .5:
                ext['readOnly'] = ['extra%i' % i]
            if rng.random() < .5:
                # properties declared again, the restrictions of which stay
                for k in rng.sample(sorted(spec.kinds), rng.randint(1, len(spec.kinds))):
                    if k in sch['properties']:
                        ext['properties'][k] = dict(sch['properties'][k])
                        c.hit('redeclared')
            if rng.random() < .4:
                ext['required'] = rng.sample(sorted(spec.required), min(1, len(spec.required)))
            if rng.random() < .4:
                ext['notSerialized'] = rng.sample(sorted(hidden), min(1, len(hidden)))
            A = gen.pclass(ext, gen.uid(c), 'Child%i' % i, bases=(A,))
        raw, want = spec.initial(rng, .7)
        # a property kept out of the serialization has a value, so that keeping it out means something
        for k in hidden:
            want[k] = spec.kinds[k].typed(rng)
            raw[k] = spec.kinds[k].raw(rng, want[k])
        c.sig(str(sch), level)
        c.log('construct', raw)
        a = A(**raw) if rng.random() < .5 else A(raw)
        for k, w in want.items():
            c.expect(same(a[k], w), 'property %s (read only: %s) constructed as %r reads %r', k, k in spec.readonly, raw.get(k), a[k])
            if k in spec.readonly:
                c.hit('constructed')

        def unchanged(k, how):
            for kk, w in want.items():
                c.expect(same(a[kk], w), '%s of %s changed %s from %r to %r', how, k, kk, w, a[kk])

        for k in sorted(spec.readonly):
            v = spec.kinds[k].raw(rng, spec.kinds[k].typed(rng))
            names = spec.names(k)
            for name, neg in names.items():
                if neg and isinstance(v, str):
                    continue
                for how, f in setters(a, name, v).items():
                    if rng.random() < .5:
                        c.raises(f, 'read only property %s set as %s by %s', k, name, how, kinds=AttributeError)
                        c.hit('readonly')
            unchanged(k, 'a refused assignment')
            if level:
                c.hit('inherited')
        for i in range(level):
            if 'extra%i' % i in getattr(A, '_readOnly', ()):
                c.raises(lambda: setattr(a, 'extra%i' % i, 'v'), 'inherited read only property set', kinds=AttributeError)
                b = A(dict(raw, **{'extra%i' % i: 'given'}))
                c.equal(b['extra%i' % i], 'given', 'read only property given at construction')
            else:
                setattr(a, 'extra%i' % i, 'v')
                c.equal(a['extra%i' % i], 'v', 'property without restriction')
        for k in sorted(spec.required):
            for name in spec.names(k):
                for how, f in deleters(a, name, spec.trans(k)).items():
                    c.raises(f, 'required property %s deleted as %s by %s', k, name, how, kinds=(AttributeError, KeyError))
                    c.hit('required')
            c.expect(k in a, 'required property %s disappeared', k)
            unchanged(k, 'a refused deletion')
        # serialization
        full = a.do_serialize(no_defaults=False)
        c.expect(not hidden.intersection(full), 'not serialized %r are in %r', sorted(hidden), list(full))
        some = a.do_serialize()
        c.expect(not hidden.intersection(some), 'not serialized %r are in %r', sorted(hidden), list(some))
        if hidden:
            c.hit('hidden')
        shown = {k for k in want if k not in hidden and k in raw and not same(spec.unset(k), want[k])}
        c.expect(shown <= set(some), 'serialization lacks %r', sorted(shown.difference(some)))
        ro = a.do_serialize(no_readOnly=True)
        keep = {k for k in shown if k not in spec.readonly or k in spec.required}
        c.expect(keep <= set(ro), 'serialization without read only properties lacks %r', sorted(keep.difference(ro)))
        gone = spec.readonly.difference(spec.required)
        c.expect(not gone.intersection(ro), 'serialization without read only properties has %r', sorted(gone.intersection(ro)))
        c.expect(set(a.do_serialize()) == set(some), 'a later serialization lost %r', sorted(set(some) ^ set(a.do_serialize())))
        # deletion of the others
        for k in sorted(spec.kinds):
            if k in spec.required or rng.random() < .5:
                continue
            name = rng.choice(list(spec.names(k)))
            how, f = rng.choice(list(deleters(a, name, spec.trans(k)).items()))
            c.log('delete', name, how)
            f()
            del want[k]
            c.expect(k not in a and k not in list(a), 'deleted property %s is still there', k)
            unchanged(k, 'a deletion')
            if k not in spec.readonly and rng.random() < .7:
                want[k] = spec.kinds[k].typed(rng)
                a[k] = spec.kinds[k].raw(rng, want[k])
                unchanged(k, 'an assignment after a deletion')

    @run.workload('parents', quick=40, thorough=600)
    def _(c):
        """the restrictions of all the parents apply, in the order of Python or through extends"""
        rng = c.rng
        n = rng.randint(2, 3)
        parents, ro, rq, hid, every = [], set(), set(), set(), []
        for i in range(n):
            ks = ['%s%i' % (x, i) for x in rng.sample('abcdef', rng.randint(1, 4))]
            sch = {'type': 'object', 'properties': {k: {'type': 'integer'} for k in ks}}
            r = {k for k in ks if rng.random() < .4}
            q = {k for k in ks if rng.random() < .3}
            h = {k for k in ks if k not in q and rng.random() < .4}
            for name, st in (('readOnly', r), ('required', q), ('notSerialized', h)):
                if st or rng.random() < .3:
                    sch[name] = sorted(st)
            ro |= r
            rq |= q
            hid |= h
            every += ks
            pid = gen.uid(c, 'P%i' % i)
            parents.append((pid, gen.pclass(sch, pid, 'P%i' % i)))
        own = {'type': 'object', 'properties': {'own': {'type': 'integer'}}}
        for name, st in (('readOnly', ro), ('required', rq), ('notSerialized', hid)):
            if rng.random() < .4:
                own[name] = ['own']
                st.add('own')
        if rng.random() < .6:
            for k in rng.sample(every, rng.randint(1, min(3, len(every)))):
                # declared again, with the restrictions of the parents
                own['properties'][k] = {'type': 'integer', 'maximum': 100000}
                c.hit('redeclared')
        hid -= rq
        own['notSerialized'] = ['own'] if 'own' in hid else []
        every.append('own')
        ext = rng.sample(parents, rng.randint(0, n)) if rng.random() < .4 else []
        bases = [p for p in parents if p not in ext]
        if ext:
            own['extends'] = [p[0] for p in ext]
        C = gen.pclass(own, gen.uid(c), 'C', bases=[p[1] for p in bases])
        want = {k: rng.randint(1, 99) for k in every}
        a = C(**want)
        c.sig(str(own), n, str(sorted(ro)), str(sorted(rq)), str(sorted(hid)))
        for k in every:
            if k in ro:
                for how, f in setters(a, k, 7777).items():
                    c.raises(f, 'read only property %s of a parent set by %s', k, how, kinds=AttributeError)
                c.hit('readonly')
            if k in rq:
                for how, f in deleters(a, k, k).items():
                    c.raises(f, 'required property %s of a parent deleted by %s', k, how, kinds=(AttributeError, KeyError))
                c.hit('required')
            c.equal(a[k], want[k], 'property %s of a parent', k)
        got = a.do_serialize()
        c.equal(dict(got), {k: v for k, v in want.items() if k not in hid}, 'serialization with %r not serialized', sorted(hid))
        got = a.do_serialize(no_readOnly=True)
        c.equal(dict(got), {k: v for k, v in want.items() if k not in hid and (k not in ro or k in rq)},
                'serialization without read only, %r not serialized', sorted(hid))
        c.hit('parents')

    @run.workload('nested', quick=40, thorough=800)
    def _(c):
        rng = c.rng
        A = gen.pclass({'properties': {
            'o': {'type': 'object', 'readOnly': ['fix'], 'required': ['need'], 'notSerialized': ['secret'],
                  'properties': {k: {'type': 'integer'} for k in ('fix', 'need', 'free', 'secret')}},
            'l': {'type': 'array', 'items': {'type': 'object', 'readOnly': ['fix'], 'notSerialized': ['secret'],
                                             'properties': {k: {'type': 'integer'} for k in ('fix', 'free', 'secret')}}}}},
            gen.uid(c))
        v = {k: rng.randint(1, 99) for k in ('fix', 'need', 'free', 'secret')}
        w = {k: rng.randint(1, 99) for k in ('fix', 'free', 'secret')}
        a = A(o=dict(v), l=[dict(w)])
        c.sig(str(v), str(w))
        n = rng.randint(100, 200)
        for f in (lambda: setattr(a.o, 'fix', n), lambda: a.o.__setitem__('fix', n), lambda: a['o'].update(fix=n),
                  lambda: setattr(a.l[0], 'fix', n), lambda: a.l[0].__setitem__('fix', n)):
            c.raises(f, 'a nested read only property is set', kinds=AttributeError)
            c.hit('nested')
        c.raises(lambda: a.__setitem__('o.fix', n), 'a nested read only property is set by its path', kinds=(AttributeError, KeyError))
        c.raises(lambda: delattr(a.o, 'need'), 'a nested required property is deleted', kinds=(AttributeError, KeyError))
        c.raises(lambda: a.o.pop('need'), 'a nested required property is deleted', kinds=(AttributeError, KeyError))
        c.equal({k: a.o[k] for k in v}, v, 'the nested object')
        c.equal({k: a.l[0][k] for k in w}, w, 'the nested item')
        s = a.do_serialize()
        c.expect('secret' not in s['o'] and 'secret' not in s['l'][0], 'nested not serialized properties are in %r', s)
        c.equal((s['o']['fix'], s['l'][0]['fix']), (v['fix'], w['fix']), 'nested serialization')
        s = a.do_serialize(no_readOnly=True)
        c.expect('fix' not in s['o'] and 'fix' not in s['l'][0], 'nested read only properties are in %r', s)
        a['o.free'] = n
        c.equal(a.o.free, n, 'a nested property without restriction')
