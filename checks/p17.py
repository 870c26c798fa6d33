# -*- coding: utf-8 -*-
"""P17 - filters select exactly the objects which meet the criteria."""
import re

from harness import gen

MISSING = object()
OPS = ['lt', 'le', 'eq', 'ne', 'neq', 'ge', 'gt', 'contains', 'in', 'size', 'intersects', 'ieq', 'icontains',
       'startswith', 'istartswith', 'endswith', 'iendswith', 'regex']
POOL = ['Ab', 'ab', 'b.a', 'a.B', 'axb', '[x', 'x[', 'b', '(B', '*a', 'AB.', 'abab', 'Bab', 'c+']
REGEX = ['a', 'A.', '[ab]+', 'b.a', '.*b$', '^a', '(ab)+']


def register(run):
    from ngoschema.query import Query, Filter
    run.rule = 'a distinct non-trivial case is a (list of at least 6 objects, criteria) with at least 1 criterion'
    run.assumptions = ['criteria values have the type the operator asks for', 'objects are not empty']
    run.require(decided=4000, selected=900, rejected=900, missing=200, nested=400, operator_named=150, typed=1000,
                plain=1000, any_of=600, negated=600, errors=15)

    def read(o, path):
        """independent reading of a path in the model (plain data)"""
        for k in path:
            if not isinstance(o, dict) or k not in o:
                return MISSING
            o = o[k]
        return MISSING if o is None else o

    def resolve(o, name):
        """the value of a criterion and the operators left"""
        parts = name.split('__')
        k = len(parts)
        while k > 1 and (parts[k - 1] in OPS + ['not'] or parts[k - 1].startswith('@')):
            k -= 1
        path, ops = parts[:k], parts[k:]
        neg = 'not' in ops
        ops = [p for p in ops if p != 'not']
        v = read(o, path)
        while ops and isinstance(v, dict) and v.get(ops[0]) is not None:
            v = v[ops.pop(0)]
        return v, ops, neg

    def holds(o, name, ref):
        v, ops, neg = resolve(o, name)
        if v is MISSING:
            return False
        while ops and (ops[0] == 'size' or ops[0].startswith('@')):
            p = ops.pop(0)
            v = len(v) if p == 'size' else v[int(p[1:])]
        op = ops[0] if ops else 'eq'
        r = {'lt': lambda: v < ref, 'le': lambda: v <= ref, 'eq': lambda: v == ref, 'ne': lambda: v != ref,
             'neq': lambda: v != ref, 'ge': lambda: v >= ref, 'gt': lambda: v > ref,
             'contains': lambda: ref in v, 'in': lambda: v in ref,
             'intersects': lambda: any(x in ref for x in v),
             'ieq': lambda: v.lower() == ref.lower(), 'icontains': lambda: ref.lower() in v.lower(),
             'startswith': lambda: v[:len(ref)] == ref, 'istartswith': lambda: v.lower()[:len(ref)] == ref.lower(),
             'endswith': lambda: v[len(v) - len(ref):] == ref if len(ref) <= len(v) else False,
             'iendswith': lambda: v.lower()[len(v) - len(ref):] == ref.lower() if len(ref) <= len(v) else False,
             'regex': lambda: re.match(ref, v) is not None}[op]()
        return bool(r) != neg

    def criterion(rng, path, kind, typed):
        """(name, reference value) with an operator which suits the kind of the attribute"""
        name = '__'.join(path)
        if kind == 'i':
            op = rng.choice(['lt', 'le', 'eq', 'ne', 'neq', 'ge', 'gt', 'in', '', ''])
            ref = rng.randint(-1, 4) if op != 'in' else [rng.randint(-1, 4) for _ in range(rng.randint(0, 3))]
        elif kind == 's':
            op = rng.choice(['lt', 'ge', 'eq', 'ne', 'neq', 'contains', 'in', 'ieq', 'ieq', 'icontains', 'icontains',
                             'startswith', 'istartswith', 'endswith', 'iendswith', 'iendswith', 'regex', '', 'size'])
            w = rng.choice(POOL)
            part = w[rng.randint(0, len(w) - 1):] if rng.random() < .5 else w[:rng.randint(1, len(w))]
            part = rng.choice([part, part, part.lower(), part.upper(), part.swapcase()])
            ref = w
            if op in ('contains', 'icontains', 'startswith', 'istartswith', 'endswith', 'iendswith'):
                ref = part
            elif op == 'ieq':
                ref = rng.choice([w.lower(), w.upper(), w.swapcase()])
            elif op == 'in':
                ref = rng.sample(POOL, rng.randint(0, 4))
            elif op == 'regex':
                ref = rng.choice(REGEX)
            elif op == 'size':
                op = 'size' + rng.choice(['', '__lt', '__ge', '__ne'])
                ref = rng.randint(0, 4)
        elif kind == 'l':
            op = rng.choice(['contains', 'intersects', 'size', 'size__ge', 'size__lt', 'size__eq', '@0', '@0__lt', '@-1']
                            # a typed array only equals arrays of its type
                            + ([] if typed else ['eq', 'ne', '']))
            if op == 'contains' or op.startswith(('size', '@')):
                ref = rng.randint(0, 3)
            else:
                ref = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
        else:
            op = rng.choice(['', 'eq', 'ne'])
            ref = rng.random() < .5
        parts = [name] + ([op] if op else [])
        if rng.random() < .25:
            parts.insert(rng.randint(1, len(parts)), 'not')
        return '__'.join(parts), ref

    KINDS = {'integer': 'i', 'string': 's', 'boolean': 'b', 'array': 'l'}

    def schema(rng, depth=0):
        names = rng.sample(['i', 'j', 's', 't', 'l', 'b', 'size', 'regex', 'gt'], rng.randint(3, 6))
        props = {}
        for n in names:
            t = {'i': 'integer', 'j': 'integer', 's': 'string', 't': 'string', 'l': 'array', 'b': 'boolean', 'size': 'integer',
                 'regex': 'string', 'gt': 'integer'}[n]
            props[n] = {'type': t}
            if t == 'array':
                props[n]['items'] = {'type': 'integer'}
        if depth < 2 and rng.random() < (1 if depth == 0 else .5):
            props['o'] = schema(rng, depth + 1)
        return {'type': 'object', 'properties': props}

    def value(rng, sch, full=False, depth=0):
        o = {}
        for n, s in sch['properties'].items():
            if rng.random() < .2 and not full and not (n in ('regex', 'gt') and depth):
                continue
            t = s['type']
            if t == 'integer':
                o[n] = rng.randint(-1, 4)
            elif t == 'string':
                o[n] = rng.choice(POOL)
            elif t == 'boolean':
                o[n] = rng.random() < .5
            elif t == 'array':
                # items at the ends are asked for: never empty
                o[n] = [rng.randint(0, 3) for _ in range(rng.randint(1, 4))]
            else:
                o[n] = value(rng, s, depth=depth + 1)
        return o

    def paths(sch, pre=()):
        for n, s in sch['properties'].items():
            if s['type'] == 'object':
                for p in paths(s, pre + (n,)):
                    yield p
            else:
                yield pre + (n,), KINDS[s['type']]

    @run.workload('criteria', quick=190, thorough=6000)
    def _(c):
        rng = c.rng
        typed = rng.random() < .45
        sch = schema(rng)
        if typed:
            # every property is given: unset arrays and booleans of typed objects have values of their own
            models = [value(rng, sch, True) for _ in range(rng.randint(6, 9))]
            for m in models:
                if 'o' in m:
                    m['o'] = value(rng, sch['properties']['o'], True)
                    if 'o' in m['o']:
                        m['o']['o'] = value(rng, sch['properties']['o']['properties']['o'], True)
            cls = gen.pclass(sch, gen.uid(c))
            objs = [cls(m) for m in models]
        else:
            models = [value(rng, sch) for _ in range(rng.randint(6, 12))]
            models = [m or {'z': 1} for m in models]
            objs = models
        rank = {id(o): i for i, o in enumerate(objs)}
        allp = list(paths(sch))
        source = rng.choice(['list', 'tuple', 'dict', 'iterator'])

        def query():
            if source == 'list':
                return Query(objs)
            if source == 'tuple':
                return Query(tuple(objs))
            if source == 'dict':
                return Query({i: o for i, o in enumerate(objs)}.values())
            return Query(o for o in objs)

        for rep in range(6):
            crit = {}
            for _ in range(rng.randint(1, 3)):
                p, kind = rng.choice(allp)
                if not typed and rng.random() < .1:
                    p = p + ('nothere',) if rng.random() < .5 else ('nothere',) + p
                k, ref = criterion(rng, p, kind, typed)
                crit[k] = ref
            if not typed and rng.random() < .15:
                # an operator on a mapping which may hold an attribute of that name
                crit = {'o__size__ge': rng.randint(0, 4)} if 'o' in sch['properties'] else crit
            attrs = []
            if not typed and rng.random() < .35:
                attrs = ['__'.join(rng.choice(allp)[0]) for _ in range(rng.randint(1, 2))]
                if rng.random() < .3:
                    crit = {}
                if rng.random() < .2:
                    attrs[0] += '__deeper'
            c.log(source, attrs, crit)
            each = []
            for m in models:
                t = [holds(m, k, v) for k, v in crit.items()]
                t += [read(m, a.split('__')) is not MISSING for a in attrs]
                each.append((all(t), any(t)))
                c.hit('missing', any(resolve(m, k)[0] is MISSING for k in crit))
            for mode in ('filter', 'exclude', 'filter_any_of', 'exclude_any_of', 'call', 'get', 'next'):
                any_of = 'any' in mode or mode == 'call' and rng.random() < .5
                neg = 'exclude' in mode or mode == 'call' and rng.random() < .5
                want = [i for i, (a, b) in enumerate(each) if (b if any_of else a) != neg]
                if mode == 'call':
                    f = Filter(*attrs, negate=neg, any_of=any_of, **crit)
                    got = [i for i, o in enumerate(objs) if f(o) is True]
                elif mode == 'get':
                    if len(want) == 1:
                        got = [rank[id(query().get(*attrs, **crit))]]
                    else:
                        c.raises(lambda: query().get(*attrs, **crit), 'get with %i results', len(want))
                        continue
                elif mode == 'next':
                    if not want:
                        c.raises(lambda: query().next(*attrs, **crit), 'next without result', kinds=StopIteration)
                        continue
                    want = want[:1]
                    got = [rank[id(query().next(*attrs, **crit))]]
                else:
                    got = [rank[id(o)] for o in getattr(query(), mode)(*attrs, **crit)]
                c.expect(got == want, '%s(%r, %r) on %r selects %r, expected %r', mode, attrs, crit, models, got, want)
                c.hit('decided', len(models))
                c.hit('typed' if typed else 'plain', len(models))
                c.hit('selected', len(got))
                c.hit('rejected', len(models) - len(got))
                c.hit('any_of', any_of)
                c.hit('negated', neg)
                c.hit('nested', any(k.startswith('o__') for k in crit))
                c.hit('operator_named', any(set(k.split('__')) & {'size', 'regex', 'gt'} for k in crit))
        c.sig(models, crit, attrs)

    @run.workload('wrong type', quick=10, thorough=100)
    def _(c):
        rng = c.rng
        c.sig(c.index)
        o = {'s': rng.choice(POOL), 'i': rng.randint(0, 3), 'l': [1]}
        for op in ('startswith', 'istartswith', 'endswith', 'iendswith', 'ieq', 'icontains', 'regex'):
            c.raises(lambda: list(Query([o]).filter(**{'i__' + op: 'a'})), '%s on a number', op, kinds=TypeError)
            c.raises(lambda: list(Query([o]).filter(**{'s__' + op: 3})), '%s with a number', op, kinds=TypeError)
            c.hit('errors')
        c.raises(lambda: list(Query([o]).filter(l__intersects='a')), 'intersects with a text', kinds=TypeError)
