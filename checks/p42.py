# -*- coding: utf-8 -*-
"""P42 - printing types, values and refusals shows what they hold, in a bounded size, and changes nothing."""
import datetime
import re
from decimal import Decimal

from harness import gen
from harness.objmodel import Spec, KINDS, plain, same

MAX_EL, MAX_STR = 10, 40


def cut(s, n=MAX_STR):
    return s if len(s) <= n else s[:n] + '...'


def register(run):
    from ngoschema import types as T
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.protocols import ObjectProtocol, ArrayProtocol
    from ngoschema.exceptions import InvalidValue, ConversionError
    run.rule = 'a distinct non-trivial case is a (class, contents, history) printed, a type with its keywords, or a value refused'
    run.assumptions = ['default values are valid', 'objects do not hold themselves',
                       'the order in which the properties are printed is not specified', 'values are as last read, or as given when they were not read']
    run.require(arrays=270, early=70, evaluated=60, falsy=60, falsy_items=50, hidden=10, holding=180, instances=20,
                long_arrays=100, printed=120, refused=180, types=60, whole=50)

    def items_of(c, text, opening, closing, texts, what):
        """the text is made of these items, in any order, 10 of them at most"""
        c.expect(text.startswith(opening) and text.endswith(closing), '%s is printed as %r', what, text)
        body = text[len(opening):len(text) - len(closing)]
        hidden = max(0, len(texts) - MAX_EL)
        if hidden:
            tail = '+%i...' % hidden
            c.expect(body.endswith(', ' + tail), '%s of %i elements is printed as %r', what, len(texts), text)
            body = body[:-len(tail) - 2]
            shown = []
            rest = sorted(texts, key=len, reverse=True)
            while body and len(shown) < MAX_EL:
                t = next((t for t in rest if body == t or body.startswith(t + ', ')), None)
                c.expect(t is not None, '%r is printed for none of the elements %r', body, texts)
                shown.append(t)
                rest.remove(t)
                body = body[len(t) + 2:]
            c.expect(len(shown) == MAX_EL and not body, '%s of %i elements is printed as %r', what, len(texts), text)
            c.hit('hidden')
        else:
            c.expect(len(body) == sum(map(len, texts)) + 2 * max(0, len(texts) - 1), '%s is printed as %r: elements %r', what, text, texts)
            for t in texts:
                c.expect(t in body, '%s is printed as %r, without %r', what, text, t)

    def check_array(c, a, what):
        texts = [cut(repr(a[i])) for i in range(len(a))]
        s = '[%s]' % ', '.join(texts[:MAX_EL] + (['+%i...' % (len(a) - MAX_EL)] if len(a) > MAX_EL else []))
        c.equal(str(a), s, 'str of %s', what)
        c.expect(repr(a).endswith('(%s)' % s), 'repr of %s: %r', what, repr(a))
        for x in a:
            check(c, x, 'an item of ' + what)
        c.hit('arrays')
        if len(a) > MAX_EL:
            c.hit('long_arrays')

    def check(c, x, what):
        if isinstance(x, ArrayProtocol):
            check_array(c, x, what)

    @run.workload('objects', quick=150, thorough=3000)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, n=(2, 14), readonly=.15, lazy=rng.choice([None, True, False]), kinds=KINDS)
        A = spec.build(rng)
        raw, want = spec.initial(rng, .7)
        extras = {}
        for i in range(rng.choice([0, 0, 1, 2])):
            extras['more%i' % i] = rng.choice(['txt', 3, 'z' * rng.randint(36, 44), 0, '', False])
        c.sig(str(sorted(spec.kinds)), str(raw), str(extras))
        c.log('construct', raw, extras)
        a, twin = A(dict(raw, **extras)), A(dict(raw, **extras))
        given = set(raw)
        settable = [k for k in spec.kinds if k not in spec.readonly]
        for _i in range(rng.randint(0, 4)):
            if rng.random() < .6:
                text = rng.choice([str, repr])(a)
                c.expect(len(text) < 40 + MAX_EL * (MAX_STR + 30) + 30, 'printed in %i characters', len(text))
                c.hit('early')
            if settable:
                k = rng.choice(settable)
                want[k] = spec.kinds[k].typed(rng)
                v = spec.kinds[k].raw(rng, want[k])
                c.log('set', k, v)
                given.add(k)
                for o in (a, twin):
                    o[k] = v
        if rng.random() < .5:
            str(a), repr(a)
        # once read
        for o in (a, twin):
            for k in list(o):
                plain(o[k])
        shown = {}
        for k, w in want.items():
            hidden = same(a[k], spec.unset(k)) and (k in spec.default or spec.kinds[k].name in ('enum', 'array'))
            if k in given and (k in spec.required or w is not None) and not hidden:
                shown[k] = a[k]
            c.expect(same(a[k], w), 'property %s reads %r once printed instead of %r', k, plain(a[k]), w) if k in given else None
        shown.update({k: a[k] for k in extras})
        items_of(c, str(a), '{', '}', ['%s: %s' % (k, cut(repr(v))) for k, v in shown.items()], 'an object')
        r = {k: v for k, v in shown.items() if k not in spec.readonly or k in spec.required}
        items_of(c, repr(a), A.qualname() + '(', ')', ['%s=%s' % (k, cut(repr(v))) for k, v in r.items()], 'repr of an object')
        if len(shown) <= MAX_EL:
            c.hit('whole')
        for k, v in shown.items():
            check(c, v, k)
        c.expect(a == twin and plain(a.do_serialize()) == plain(twin.do_serialize()), 'printing changed the object: %r instead of %r',
                 plain(a.do_serialize()), plain(twin.do_serialize()))
        c.hit('printed')

    @run.workload('arrays', quick=80, thorough=1500)
    def _(c):
        rng = c.rng
        item = rng.choice([{'type': 'integer'}, {'type': 'string'}, {'type': 'number'}, {'type': 'boolean'},
                           {'type': 'object', 'properties': {'q': {'type': 'string'}, 'r': {'type': 'integer'}}},
                           {'type': 'array', 'items': {'type': 'integer'}}])
        make = {'integer': lambda: rng.randint(-9, 9), 'string': lambda: 'z' * rng.choice([0, 1, 5, 37, 38, 39, 40, 41, 60]),
                'number': lambda: gen.decimal(rng), 'boolean': lambda: rng.random() < .5,
                'object': lambda: {'q': 'y' * rng.choice([0, 1, 2, 60]), 'r': rng.randint(0, 9)},
                'array': lambda: [rng.randint(0, 99) for _ in range(rng.choice([0, 1, 9, 10, 11, 12, 30]))]}[item['type']]
        C = gen.build(gen.uid(c, 'C'), {'type': 'object', 'properties': {'l': {'type': 'array', 'items': item}}})
        vs = [make() for _ in range(rng.choice([0, 1, 2, 9, 10, 11, 12, 25]))]
        c.sig(item, vs)
        o, twin = C(l=list(vs)), C(l=list(vs))
        for _i in range(rng.randint(1, 4)):
            str(o.l), repr(o.l), str(o), repr(o)
            v, op = make(), rng.choice(['append', 'insert', 'set', 'pop', 'none'])
            i = rng.randrange(len(vs)) if vs else 0
            c.log(op, i, v)
            for l in (o.l, twin.l, vs):
                if op == 'append':
                    l.append(v)
                elif op == 'insert':
                    l.insert(i, v)
                elif op == 'set' and vs:
                    l[i] = v
                elif op == 'pop' and vs:
                    l.pop(i)
            plain(o.l)
            plain(twin.l)
            check_array(c, o.l, 'an array')
        c.expect(o == twin, 'printing changed the array')
        c.hit('printed')

    @run.workload('literals', quick=80, thorough=1500)
    def _(c):
        rng = c.rng
        C = gen.pclass({'type': 'object', 'properties': {
            'b': {'type': 'integer'}, 'n': {'type': 'integer'}, 'e': {'type': 'integer'}, 'f': {'type': 'boolean'}, 's': {'type': 'string'},
            'l': {'type': 'array', 'items': {'type': 'integer'}}}, 'lazyLoading': rng.random() < .5}, gen.uid(c, 'L'), name='L')
        vals = {'b': rng.randint(-2, 2), 'n': rng.randint(-2, 2)}
        k = rng.randint(-2, 2)
        lits = {'e': ('`this.b + this.n - %i' % k, lambda v: v['b'] + v['n'] - k), 'f': ('`this.b > %i' % k, lambda v: v['b'] > k),
                's': ('{{this.b}}/{{this.n}}', lambda v: '%i/%i' % (v['b'], v['n']))}
        consts = [rng.randint(-1, 1) for _ in range(rng.randint(0, 4))]
        data = dict(vals, l=['`%i - 1' % (x + 1) if rng.random() < .5 else x for x in consts], **{n: t for n, (t, f) in lits.items()})
        c.sig(data)
        c.log('construct', data)
        o, twin = C(data), C(data)
        for _i in range(rng.randint(1, 5)):
            for n in rng.sample(sorted(data), rng.randint(0, 3)):
                plain(o[n])
            # as last read, or as given
            for text in (str(o), repr(o)):
                for n, (t, f) in lits.items():
                    c.expect(n in text, '%s in %r', n, text)
            for x in list(o.values()):
                plain(x)
            shown = {n: f(vals) for n, (t, f) in lits.items()}
            shown.update(vals)
            if consts:
                shown['l'] = o.l
            items_of(c, str(o), '{', '}', ['%s: %s' % (n, cut(repr(v))) for n, v in shown.items()], 'an object of expressions')
            items_of(c, repr(o), C.qualname() + '(', ')', ['%s=%s' % (n, cut(repr(v))) for n, v in shown.items()], 'an object of expressions')
            for i in range(len(consts)):
                o.l[i]
            c.equal(str(o.l), '[%s]' % ', '.join(map(repr, consts)), 'array of expressions')
            if not all(shown[n] for n in lits):
                c.hit('falsy')
            if 0 in consts:
                c.hit('falsy_items')
            n = rng.choice(['b', 'n'])
            vals[n] = rng.randint(-2, 2)
            c.log('set', n, vals[n])
            o[n] = twin[n] = vals[n]
        for n in lits:
            c.equal(o[n], lits[n][1](vals), '%s once printed', n)
        c.expect(o == twin, 'printing changed the object')
        c.hit('printed')

    @run.workload('instances', quick=60, thorough=1200)
    def _(c):
        from ngoschema.models.instances import Instance, Entity
        rng = c.rng
        make = {'integer': lambda: rng.randint(-1, 2), 'string': lambda: rng.choice(['', 'a', 'b c', 'é']), 'boolean': lambda: rng.random() < .5}
        ks = {k: rng.choice(sorted(make)) for k in rng.sample(['n', 'm', 'code', 'p'], rng.randint(1, 3))}
        entity = rng.random() < .5
        pk = rng.sample(sorted(ks), rng.randint(1, len(ks)))
        sch = {'type': 'object', 'properties': {k: {'type': t} for k, t in ks.items()}}
        sch.update({'primaryKeys': pk} if entity else {'required': sorted(ks)})
        C = gen.pclass(sch, gen.uid(c, 'I'), bases=(Entity if entity else Instance, ), name='I')
        vals = {k: make[t]() for k, t in ks.items()}
        name = rng.choice([None, 'x', 'a:y'])
        o = C({k: str(v) if rng.random() < .5 else v for k, v in list(vals.items()) + ([('name', name)] if name else [])})
        c.sig(ks, entity, pk, vals, name)
        for _i in range(rng.randint(1, 5)):
            for k in ks:
                c.equal(o[k], vals[k], 'property %s', k)
            if entity:
                c.equal(str(o), '<%s %s>' % (C.qualname(), ', '.join(str(vals[k]) for k in pk)), 'str of an entity')
            else:
                cn = o._canonicalName
                c.expect(bool(cn) == bool(name), 'canonical name %r of %r', cn, name)
                head = '<%s %s' % (C.qualname(), cn + ' ' if cn else '')
                c.expect(str(o).startswith(head) and str(o).endswith('>'), 'an instance is printed as %r', str(o))
                want = sorted('%s=%s' % (k, vals[k]) for k in ks)
                got = str(o)[len(head):-1]
                c.expect(len(got) == len(' '.join(want)) and all(w in got for w in want), 'an instance is printed as %r', str(o))
            k = rng.choice(sorted(ks))
            vals[k] = make[ks[k]]()
            c.log('set', k, vals[k])
            o[k] = vals[k]
            if rng.random() < .3:
                name = rng.choice(['x', 'y', 'zz'])
                o.name = name
        c.hit('instances')

    KEYWORDS = {
        'integer': lambda r: dict(r.sample([('minimum', r.randint(-9, 0)), ('maximum', r.randint(1, 9)), ('multipleOf', r.randint(1, 3)),
                                            ('default', 0), ('exclusiveMinimum', -20), ('title', gen.word(r))], r.randint(0, 4))),
        'number': lambda r: dict(r.sample([('minimum', r.randint(-9, 0)), ('maximum', r.randint(1, 9)), ('default', 0)], r.randint(0, 3))),
        'string': lambda r: dict(r.sample([('minLength', r.randint(0, 2)), ('maxLength', r.randint(3, 6)), ('pattern', r.choice(['^[a-c]*$', '^[a-c\\d]*$', '^[a-c"\']*$'])),
                                           ('default', 'ab')], r.randint(0, 3))),
        'boolean': lambda r: dict(r.sample([('default', True)], r.randint(0, 1))),
        'enum': lambda r: {'enum': r.sample(['a', 'b', 1, 2, 'c d'], r.randint(1, 4))},
        'date': lambda r: {}, 'time': lambda r: {}, 'path': lambda r: {}, 'uri': lambda r: {},
    }
    CLS = {'integer': 'Integer', 'number': 'Number', 'string': 'String', 'boolean': 'Boolean', 'enum': 'Enum', 'date': 'Date',
           'time': 'Time', 'path': 'Path', 'uri': 'Uri'}
    PROBES = [None, 0, 1, -1, 5, '5', 'ab', 'abcd', 'zz', '', True, False, 'a', 'b', 2, -30, Decimal('1.5'), '2020-01-02', 'c d', [], {},
              datetime.date(2020, 1, 2)]

    def verdict(f):
        try:
            return f()
        except (InvalidValue, ConversionError) as e:
            return type(e)
        except Exception as e:
            return type(e)

    @run.workload('types', quick=150, thorough=3000)
    def _(c):
        rng = c.rng
        kind = rng.choice(sorted(CLS))
        kw = KEYWORDS[kind](rng)
        cls = getattr(T, CLS[kind])
        t = cls(**kw)
        c.sig(kind, kw)
        c.log('type', kind, kw)
        before = [verdict(lambda: t(v)) for v in PROBES]
        r, s = repr(t), str(t)
        args = ', '.join(['type=%r' % kind] + ['%s=%r' % i for i in kw.items()])
        c.expect(r.startswith(cls.qualname() + '(') and r.endswith(')'), 'repr of a type: %r', r)
        body = r[len(cls.qualname()) + 1:-1]
        if len(args) <= 100:
            parts = eval('dict(%s)' % body)
            c.equal(parts, dict(kw, type=kind), 'keywords printed')
            u = cls(**parts)
            for v, w in zip(PROBES, before):
                c.equal(verdict(lambda: u(v)), w, 'value %r by the type printed as %r', v, r)
            c.hit('evaluated')
            c.equal(s, '<%s %s>' % (cls.qualname(), ' '.join('%s[%i]' % (k, len(v)) if isinstance(v, list) else '%s=%r' % (k, v)
                                                             for k, v in parts.items())), 'str of a type')
        else:
            c.expect(body.endswith('...') and len(body) == 103, 'long type printed as %r', r)
            c.hit('long_types')
        for v, w in zip(PROBES, before):
            c.equal(verdict(lambda: t(v)), w, 'value %r once printed', v)
        # the one built from a schema
        b = gen.build(gen.uid(c, 'prim'), dict(kw, type=kind) if kind != 'enum' else kw)
        for w in (b, type(b)):
            c.expect(isinstance(repr(w), str) and isinstance(str(w), str), 'printed')
        c.expect(all('%s=%r' % i in repr(b) or '...' in repr(b) for i in kw.items()), 'built type printed as %r', repr(b))
        c.hit('types')

    @run.workload('refusals', quick=100, thorough=2000)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, kinds=KINDS)
        A = spec.build(rng)
        raw, want = spec.initial(rng, 1.)
        a = A(raw)
        plain(a)
        c.sig(str(raw))
        for k, t in spec.kinds.items():
            v = t.bad(rng)
            if v is None:
                continue
            if isinstance(v, str) and rng.random() < .3:
                v = v + 'x' * rng.randint(10, 3000)
            c.log('refused', k, v)
            try:
                b = A(dict(raw, **{k: v}))
                plain(b)
            except (InvalidValue, ConversionError) as e:
                for f in (str, repr):
                    c.expect(isinstance(f(e), str) and f(e), 'the refusal prints as %r', f(e))
                c.hit('refused')
            # an object which holds what it refuses still prints
            try:
                a[k] = v
            except (InvalidValue, ConversionError):
                pass
            for f in (str, repr):
                text = f(a)
                c.expect(len(text) < 40 + MAX_EL * (MAX_STR + 30) + 30, 'printed in %i characters', len(text))
            c.hit('holding')
            a[k] = raw[k]
            c.expect(same(a[k], want[k]), 'property %s reads %r', k, plain(a[k]))
