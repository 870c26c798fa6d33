# -*- coding: utf-8 -*-
"""P06 - object properties only ever read as valid typed values."""
from harness import gen
from harness.objmodel import KINDS, Spec, KInt, KDate, KNum, KStr, same, plain


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    REFUSED = (ConversionError, InvalidValue)
    run.rule = 'a distinct non-trivial case is a (class definition, history of at least 8 assignments and reads)'
    run.assumptions = ['raw values are not None and not literals', 'names that contain a dot are access paths, not names']
    run.require(child=90, construct_refused=70, hierarchy=1170, lazy_refused=120, nested=20, pattern=1170, read=2190,
                recovered=70, redeclared=70, refused=800, top=50, unknown=100)

    READS = ['attr', 'item', 'get', 'dict', 'values', 'items']

    def read(c, a, spec, k, way=None):
        way = way or c.rng.choice(READS[:3] * 2 + READS)
        if way == 'attr':
            return getattr(a, spec.trans(k))
        if way == 'item':
            return a[k]
        if way == 'get':
            return a.get(k)
        if way == 'dict':
            return dict(a)[k]
        if way == 'values':
            return dict(zip(list(a), list(a.values())))[k]
        return dict(a.items())[k]

    def write(c, a, spec, k, v):
        way = c.rng.choice(['attr', 'item', 'update', 'trans', 'kwupdate'])
        c.log('set', k, way, v)
        if way == 'attr':
            setattr(a, spec.trans(k), v)
        elif way == 'item':
            a[k] = v
        elif way == 'trans':
            a[spec.trans(k)] = v
        elif way == 'update':
            a.update({k: v})
        else:
            a.update(**{spec.trans(k): v})

    @run.workload('history', quick=130, thorough=3000)
    def _(c):
        rng = c.rng
        lazy = rng.choice([None, None, True, False])
        spec = Spec(c, rng, lazy=lazy, additional=rng.choice([None, False]), aliases=False)
        A = spec.build(rng)
        raw, want = spec.initial(rng)
        n = rng.randint(8, 16)
        c.sig(str(sorted(spec.kinds)), str(raw), lazy, n)
        c.log('construct', raw)
        how = rng.choice(['kw', 'map', 'create'])
        a = A(**raw) if how == 'kw' else A(raw) if how == 'map' else A.create(raw)
        lazy_now = bool(a._lazyLoading)
        bad = {}
        keys = list(spec.kinds)

        def verify(ks=None):
            for k in ks or keys:
                if k in bad:
                    c.raises(lambda: read(c, a, spec, k, rng.choice(READS[:3])), 'property %s holding %r', k, bad[k], kinds=REFUSED)
                    c.hit('lazy_refused' if lazy_now else 'refused')
                    continue
                got = read(c, a, spec, k, rng.choice(READS[:3]) if bad else None)
                c.expect(same(got, want[k]), 'property %s of type %s reads %r, expected %r', k, spec.kinds[k].schema, got, want[k])
                c.hit('read')

        if rng.random() < .7:
            verify()
        for _i in range(n):
            k = rng.choice(keys)
            t = spec.kinds[k]
            b = t.bad(rng) if rng.random() < .35 else None
            if b is not None:
                if lazy_now:
                    try:
                        write(c, a, spec, k, b)
                    except REFUSED:
                        pass
                else:
                    c.raises(lambda: write(c, a, spec, k, b), 'property %s of type %s given %r', k, t.schema, b, kinds=REFUSED)
                    c.hit('refused')
                bad[k] = b
            else:
                v = t.typed(rng)
                if k in bad:
                    c.hit('recovered')
                write(c, a, spec, k, t.raw(rng, v))
                bad.pop(k, None)
                want[k] = v
            if t.name == 'object' and k not in bad and isinstance(want[k], dict) and rng.random() < .6:
                # a property of the nested object, directly or by its path
                s, sk = (t.q, 'q') if rng.random() < .5 else (t.r, 'r')
                o = read(c, a, spec, k, 'item')
                w = s.typed(rng)
                r = s.raw(rng, w)
                way = rng.choice(['attr', 'item', 'path'])
                c.log('nested', k, sk, way, r)
                if way == 'attr':
                    setattr(o, sk, r)
                elif way == 'item':
                    o[sk] = r
                else:
                    a['%s.%s' % (spec.trans(k), sk)] = r
                want[k] = dict(want[k], **{sk: w})
                c.hit('nested')
                b = s.bad(rng)
                if b is not None and not lazy_now and not isinstance(b, (list, dict)):
                    c.raises(lambda: setattr(read(c, a, spec, k, 'item'), sk, b), 'nested property %s.%s given %r', k, sk, b, kinds=REFUSED)
                    setattr(read(c, a, spec, k, 'item'), sk, r)
                    c.hit('refused')
            if rng.random() < .5:
                verify()
            else:
                verify([rng.choice(keys)])
        verify()
        if spec.additional is False:
            name = 'nope%i' % rng.randint(0, 9)
            c.raises(lambda: a.__setitem__(name, 1), 'undeclared item %s set', name, kinds=KeyError)
            c.raises(lambda: setattr(a, name, 1), 'undeclared attribute %s set', name, kinds=AttributeError)
            c.raises(lambda: getattr(a, name), 'undeclared attribute %s read', name, kinds=AttributeError)
            c.raises(lambda: a[name], 'undeclared item %s read', name, kinds=KeyError)
            c.raises(lambda: A(dict(raw, **{name: 1})), 'undeclared key %s given', name, kinds=(KeyError, InvalidValue))
            c.expect(name not in a and set(a) == set(keys), 'undeclared %s appeared', name)
            c.hit('unknown')

    @run.workload('construction', quick=100, thorough=2000)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, lazy=rng.choice([None, True, False]), aliases=False)
        A = spec.build(rng)
        raw, want = spec.initial(rng, .8)
        k = rng.choice(list(spec.kinds))
        b = spec.kinds[k].bad(rng)
        if b is None:
            return
        raw[k] = b
        c.sig(str(sorted(raw.items(), key=str)), spec.lazy)
        c.log('construct', raw)

        def use():
            a = A(**raw) if rng.random() < .5 else A(raw)
            return read(c, a, spec, k, rng.choice(READS))
        c.raises(use, 'property %s of type %s constructed with %r', k, spec.kinds[k].schema, b, kinds=REFUSED)
        c.hit('construct_refused')

    @run.workload('patterns', quick=60, thorough=1000)
    def _(c):
        rng = c.rng
        ks = [rng.choice([KInt, KNum, KDate, KStr])(rng) for _ in range(3)]
        add = rng.choice([False, 'typed', True])
        # (pattern, names it matches, name it does not match)
        pattern, names, other = rng.choice([('^p_', ['p_a', 'p_bc'], 'xp_a'), ('_n$', ['a_n', 'big_n'], 'a_n2'),
                                            ('[0-9]{2}', ['a12', 'x_345b'], 'a1b2'), ('ab|^k', ['xaby', 'k7'], 'ak')])
        schema = {'properties': {'own': dict(ks[2].schema)},
                  'patternProperties': {pattern: dict(ks[0].schema)}}
        if add == 'typed':
            schema['additionalProperties'] = dict(ks[1].schema)
        elif add is False:
            schema['additionalProperties'] = False
        lazy = rng.choice([None, False, True])
        if lazy is not None:
            schema['lazyLoading'] = lazy
        A = gen.pclass(schema, gen.uid(c))
        kind = {'own': ks[2], names[0]: ks[0], names[1]: ks[0], other: ks[1] if add == 'typed' else None}
        if add is False:
            del kind[other]
        c.sig(str(schema))
        want, raw = {}, {}
        for k, t in kind.items():
            if t is None:
                raw[k] = want[k] = rng.choice([3, 'txt', '7'])
            else:
                want[k] = t.typed(rng)
                raw[k] = t.raw(rng, want[k])
        given = {k: v for k, v in raw.items() if rng.random() < .6}
        a = A(**given)
        for k in raw:
            if k not in given:
                if rng.random() < .5:
                    a[k] = raw[k]
                else:
                    setattr(a, k, raw[k])
        bad = {}
        for _i in range(6):
            for k in kind:
                reader = rng.choice([lambda: a[k], lambda: getattr(a, k), lambda: a.get(k)])
                if k in bad:
                    c.raises(reader, 'property %s matching a pattern, holding %r', k, bad[k], kinds=REFUSED)
                else:
                    got = reader()
                    c.expect(same(got, want[k]), 'property %s of %s given %r reads %r, expected %r', k, schema, raw[k], got, want[k])
                c.hit('pattern')
            k = rng.choice([x for x in kind if kind[x] is not None])
            t = kind[k]
            b = t.bad(rng) if rng.random() < .4 else None
            if b is not None:
                c.log('bad', k, b)
                if a._lazyLoading:
                    try:
                        a[k] = b
                    except REFUSED:
                        pass
                else:
                    c.raises(lambda: a.__setitem__(k, b), 'property %s of %s assigned %r', k, schema, b, kinds=REFUSED)
                bad[k] = b
            else:
                bad.pop(k, None)
                want[k] = t.typed(rng)
                raw[k] = t.raw(rng, want[k])
                c.log('good', k, raw[k])
                if rng.random() < .5:
                    a[k] = raw[k]
                else:
                    setattr(a, k, raw[k])
        if add is False:
            c.raises(lambda: A(other='x'), 'undeclared key given', kinds=(KeyError, InvalidValue))
            c.raises(lambda: a.__setitem__('other', 1), 'undeclared item set', kinds=KeyError)
            c.hit('unknown')

    @run.workload('hierarchy', quick=60, thorough=1500)
    def _(c):
        """classes of a hierarchy, made and used in any order: each reads its properties with the nearest declaration"""
        rng = c.rng
        kinds = [k for k in KINDS if k.name not in ('object', 'array')]
        names = rng.sample(['a', 'b', 'd', 'a-b', 'a_b', 'x1', 'x2', 'ns:d'], rng.randint(2, 5))
        made = []

        def trans(k):
            t = k.split(':')[-1].replace('-', '_')
            return t if sum(n.split(':')[-1].replace('-', '_') == t for n in names) == 1 else None

        def more():
            parent = rng.choice(made) if made and rng.random() < .8 else None
            spec = dict(parent[1]) if parent else {}
            own = {k: rng.choice(kinds)(rng) for k in names if rng.random() < .6}
            sch = {'type': 'object', 'properties': {k: t.schema for k, t in own.items()}}
            spec.update(own)
            pattern = rng.choice([None, None, '^y'])
            if pattern:
                t = rng.choice(kinds)(rng)
                if any(p for p in (parent[2] if parent else ())):
                    pattern = None
                else:
                    sch['patternProperties'] = {pattern: t.schema}
            patterns = (parent[2] if parent else ()) + ((t, ) if pattern else ())
            add = rng.choice([None, False, 'typed'])
            at = rng.choice(kinds)(rng)
            if add is not None:
                sch['additionalProperties'] = at.schema if add == 'typed' else False
            if rng.random() < .3:
                sch['lazyLoading'] = rng.random() < .5
            cid = gen.uid(c, 'H%i' % len(made))
            if parent and rng.random() < .3:
                sch['extends'] = [parent[3]]
                C = gen.pclass(sch, cid, 'H')
            else:
                C = gen.pclass(sch, cid, 'H', bases=(parent[0], ) if parent else ())
            c.log('class', len(made), parent and parent[4], sch)
            made.append((C, spec, patterns, cid, len(made), at if add == 'typed' else add))
            c.hit('child' if parent else 'top')
            if parent and set(own).intersection(parent[1]):
                c.hit('redeclared')

        more()
        seen = 0
        for _i in range(rng.randint(8, 16)):
            if rng.random() < .3:
                more()
            C, spec, patterns, cid, i, add = rng.choice(made)
            # what each name is read with
            types = dict(spec)
            for k in ('y8', 'y9'):
                types[k] = patterns[0] if patterns else add
            types['other'] = add
            want, raw = {}, {}
            for k, t in types.items():
                if t is False or rng.random() < .4:
                    continue
                want[k] = t.typed(rng) if t else rng.choice([3, 'txt', '7'])
                raw[k] = t.raw(rng, want[k]) if t else want[k]
            c.log('make', i, raw)
            late = {k for k in raw if rng.random() < .3}
            a = C({k: v for k, v in raw.items() if k not in late})
            for k in late:
                if trans(k) and rng.random() < .5:
                    setattr(a, trans(k), raw[k])
                else:
                    a[k] = raw[k]
            for k, w in want.items():
                got = getattr(a, trans(k)) if trans(k) and rng.random() < .5 else a[k]
                c.expect(same(got, w), 'class %i: property %s given %r reads %r, expected %r', i, k, raw[k], got, w)
                seen += 1
                c.hit('hierarchy')
            k = rng.choice(sorted(types))
            t = types[k]
            if t is False:
                c.raises(lambda: C(dict(raw, **{k: 'x'})), 'class %i: undeclared key %s given', i, k, kinds=(KeyError, InvalidValue))
                c.raises(lambda: a.__setitem__(k, 1), 'class %i: undeclared item %s set', i, k, kinds=KeyError)
                c.hit('unknown')
            elif t is not None:
                b = t.bad(rng)
                if b is not None:
                    c.raises(lambda: C(dict(raw, **{k: b}))[k], 'class %i: property %s given %r', i, k, b, kinds=REFUSED)
                    c.hit('refused')
        c.sig(str([(m[4], sorted(m[1]), str(m[5])) for m in made]), seen)
