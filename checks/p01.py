# -*- coding: utf-8 -*-
"""P01 - scalar types: every evaluation yields a typed value satisfying the constraints, or raises."""
import re
from decimal import Decimal
from fractions import Fraction

from harness import gen

PY = {'string': str, 'integer': int, 'number': Decimal, 'boolean': bool}


class Reject(Exception):
    pass


def convert(kind, v):
    """independent statement of the documented conversions"""
    if kind == 'string':
        return v if isinstance(v, str) else str(v)
    if kind == 'integer':
        if isinstance(v, int):
            return v
        try:
            return int(v)
        except Exception:
            raise Reject('conversion')
    if kind == 'number':
        if isinstance(v, Decimal):
            return v
        try:
            return Decimal(v)
        except Exception:
            raise Reject('conversion')
    if isinstance(v, bool):
        return v
    if isinstance(v, str) and v.lower() in ('true', 'false'):
        return v.lower() == 'true'
    if isinstance(v, int) and v in (0, 1):
        return bool(v)
    raise Reject('conversion')


def frac(x):
    return Fraction(x) if not isinstance(x, bool) else Fraction(int(x))


def satisfies(kind, v, schema):
    if kind in ('integer', 'number'):
        f = frac(v)
        if 'minimum' in schema and f < frac(schema['minimum']):
            return False
        if 'maximum' in schema and f > frac(schema['maximum']):
            return False
        if 'exclusiveMinimum' in schema and f <= frac(schema['exclusiveMinimum']):
            return False
        if 'exclusiveMaximum' in schema and f >= frac(schema['exclusiveMaximum']):
            return False
        if 'multipleOf' in schema and (f / frac(schema['multipleOf'])).denominator != 1:
            return False
    if kind == 'string':
        if 'minLength' in schema and len(v) < schema['minLength']:
            return False
        if 'maxLength' in schema and len(v) > schema['maxLength']:
            return False
        if 'pattern' in schema and not re.search(schema['pattern'], v):
            return False
    return True


def oracle(kind, v, schema):
    """value or Reject"""
    if v is None:
        if schema.get('default') is None:
            return None      # nothing to validate: reading an unset scalar gives None
        v = schema['default']
    w = convert(kind, v)
    if not satisfies(kind, w, schema):
        raise Reject('constraint')
    return w


PATTERNS = ['^[a-z]+$', '[0-9]', '^a', 'z$', '^.{2,4}$', '^(foo|bar)', r'\s']


def make_schema(rng, kind):
    s = {}
    if kind in ('integer', 'number'):
        def bound():
            b = rng.randint(-20, 40)
            if kind == 'number' and rng.random() < .5:
                b = b + rng.choice([0.5, 0.25, -0.125])
            return b
        for k in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'):
            if rng.random() < .3:
                s[k] = bound()
        if rng.random() < .35:
            s['multipleOf'] = rng.choice([1, 2, 3, 5, 7, 10] + ([0.5, 0.25, 1.5] if kind == 'number' else []))
    elif kind == 'string':
        if rng.random() < .4:
            s['minLength'] = rng.randint(0, 6)
        if rng.random() < .4:
            s['maxLength'] = rng.randint(0, 8)
        if rng.random() < .4:
            s['pattern'] = rng.choice(PATTERNS)
    return s


def values(rng, kind, schema):
    out = []
    if kind in ('integer', 'number'):
        pts = [schema[k] for k in schema if k not in ('multipleOf', 'default')]
        pts += [0, 1, rng.randint(-60, 60)]
        m = schema.get('multipleOf')
        if m:
            pts += [m * rng.randint(-9, 9), m * rng.randint(-9, 9) + 1]
        for p in pts:
            for d in (0, 1, -1) + ((0.5, -0.125) if kind == 'number' else ()):
                x = p + d
                out.append(x)
                out.append(str(x))
                if kind == 'number':
                    out.append(Decimal(str(x)))
                    out.append(' %s ' % x)
        out += ['', 'x', '1x', '--2', [], {}, '0x10', '1 2', True, False, 2.0, '3.0', 3.75, Decimal('4'), Decimal('4.5'),
                '+7', '-0', '007', object]
        if not schema:
            out += ['1e3', 10 ** 25, '-1e-7', 1e22, str(10 ** 30), Decimal('1E+5'), '123456789012345678901234567890',
                    '0.1234567890123456789', Decimal('12345678901234567.25')]
    elif kind == 'string':
        out += [gen.text(rng) for _ in range(8)]
        out += ['', 'a', 'ab', 'abc', 'abcd', 'abcdefghij', 'foo bar', 'bar9', 'xyz', 'ABC', 'a b', '9', '\t', '\n', 'a\n']
        out += [5, 2.5, True, Decimal('1.50'), ['a'], {'k': 1}, (), b'x', -3, 10 ** 20]
    else:
        out += [True, False, 0, 1, 2, -1, 'true', 'false', 'TRUE', 'False', 'tRuE', 'yes', 'no', '1', '0', '', ' true',
                'truefalse', 1.0, 0.0, [], {}, [True], 't', Decimal(1)]
    out.append(None)
    rng.shuffle(out)
    return out


def register(run):
    from ngoschema import types
    from ngoschema.exceptions import ConversionError, InvalidValue
    run.rule = ('a distinct non-trivial case is a (kind, schema, raw value) triple with a declared constraint or a '
                'value of a foreign type, evaluated through one entry point')
    run.assumptions = ['numbers stay below 1e9 in magnitude when multipleOf is declared (decimal context precision is 12)',
                       'raw values are not expressions or patterns (see P04)']
    CLS = {'string': types.String, 'integer': types.Integer, 'number': types.Number, 'boolean': types.Boolean}
    run.require(accepted=500, rejected_constraint=200, rejected_conversion=100, validate=300, check=300)

    def judge(c, what, kind, schema, v, fun):
        try:
            want = oracle(kind, v, schema)
        except Reject as r:
            kinds = (ConversionError, InvalidValue)
            er = c.raises(fun, '%s %s with %r must be rejected', what, schema, v, kinds=kinds)
            c.expect(isinstance(er, InvalidValue if str(r) == 'constraint' else ConversionError),
                     '%s %s with %r: %s raised for a %s failure', what, schema, v, type(er).__name__, r)
            c.hit('rejected_' + str(r))
            return
        got = fun()
        if want is None:
            c.expect(got is None, '%s %s with %r gave %r, expected None', what, schema, v, got)
        else:
            c.expect(isinstance(got, PY[kind]), '%s %s with %r gave a %s', what, schema, v, type(got).__name__)
            c.expect(got == want and str(got) == str(want), '%s %s with %r: observed %r, expected %r',
                     what, schema, v, got, want)
        c.hit('accepted')

    def pick_schema(c, default=True):
        kind = c.rng.choice(['string', 'integer', 'number', 'boolean', 'integer', 'number'])
        schema = make_schema(c.rng, kind)
        if default and c.rng.random() < .3:
            vals = [v for v in values(c.rng, kind, schema) if isinstance(v, (str, int, float)) and v is not None]
            # only defaults the type itself accepts
            for v in vals:
                try:
                    oracle(kind, v, schema)
                except Reject:
                    continue
                schema['default'] = v
                break
        return kind, schema

    @run.workload('instances', quick=90)
    def _(c):
        """types instantiated from keyword constraints"""
        kind, schema = pick_schema(c)
        t = CLS[kind](**schema)
        c.sig(kind, sorted(schema.items(), key=str))
        for v in values(c.rng, kind, schema):
            c.log('eval', kind, v)
            judge(c, kind + ' type', kind, schema, v, lambda: t(v))

    @run.workload('built', quick=90)
    def _(c):
        """types built from a JSON schema: call, check, validate"""
        kind, schema = pick_schema(c)
        t = gen.build(gen.uid(c, kind), dict(schema, type=kind))
        c.sig(kind, sorted(schema.items(), key=str))
        for v in values(c.rng, kind, schema):
            c.log('eval', kind, v)
            judge(c, 'built ' + kind, kind, schema, v, lambda: t(v))
            if v is None:
                continue
            typed = isinstance(v, PY[kind]) or (kind == 'number' and isinstance(v, (int, float, Decimal)))
            c.expect(t.check(v) is typed, 'check(%r) of %s gave %r', v, kind, t.check(v))
            try:
                w = convert(kind, v)
                ok = True
            except Reject:
                ok = False
            c.expect(t.check(v, convert=True) is ok, 'check(%r, convert=True) of %s gave %r', v, kind, not ok)
            full = ok and satisfies(kind, w, schema)
            c.expect(t.check(v, convert=True, validate=True) is full,
                     'check(%r, convert=True, validate=True) of %s %s gave %r', v, kind, schema, not full)
            c.hit('check')
            if ok and typed:
                # validate judges the value as it is
                good = satisfies(kind, v, schema)
                if good:
                    c.expect(t.validate(v) is v, 'validate(%r) did not return its argument', v)
                else:
                    c.raises(lambda: t.validate(v), 'validate(%r) of %s %s', v, kind, schema, kinds=InvalidValue)
                c.hit('validate')

    @run.workload('extended', quick=60)
    def _(c):
        """types which add keywords to others, by extend_type, references or keywords"""
        rng = c.rng
        kind = rng.choice(['string', 'integer', 'number', 'integer', 'number'])
        schema = make_schema(rng, kind)
        id = gen.uid(c, kind)
        made = [(gen.build(id, dict(schema, type=kind)), schema, id)]
        if rng.random() < .5:
            made = [(CLS[kind].extend_type(gen.word(rng) + 'Ext%i' % c.index, **schema), schema, None)]
        for _i in range(rng.randint(1, 4)):
            t, schema, id = rng.choice(made)
            more = make_schema(rng, kind)
            merged = dict(schema, **more)
            if id is not None and rng.random() < .6:
                new = gen.uid(c, kind)
                made.append((gen.build(new, dict(more, **{'$ref': id})), merged, new))
                c.hit('by_reference')
            else:
                cls = t if isinstance(t, type) else type(t)
                made.append((cls.extend_type('%sExt%i' % (gen.word(rng), c.index), **more), merged, None))
                c.hit('by_extension')
        c.sig(kind, [sorted(m.items(), key=str) for _, m, _ in made])
        rng.shuffle(made)
        for t, schema, id in made:
            more = {}
            if isinstance(t, type):
                more = make_schema(rng, kind) if rng.random() < .3 else {}
                u = t(**more)
            else:
                u = t
            A = types.Array(items=u)
            for v in rng.sample(values(rng, kind, dict(schema, **more)), 12):
                c.log('eval', kind, v)
                judge(c, 'extended ' + kind, kind, dict(schema, **more), v, lambda: u(v))
                if v is not None and isinstance(v, (str, int, Decimal)) and rng.random() < .3:
                    judge(c, 'item of extended ' + kind, kind, dict(schema, **more), v, lambda: A([v])[0])

    @run.workload('properties', quick=60)
    def _(c):
        """the same verdicts through object properties and array items"""
        kind, schema = pick_schema(c, default=False)
        A = gen.pclass({'properties': {'p': dict(schema, type=kind),
                                       'l': {'type': 'array', 'items': dict(schema, type=kind)}}}, gen.uid(c))
        c.sig(kind, sorted(schema.items(), key=str))
        L = gen.build(gen.uid(c, 'arr'), {'type': 'array', 'items': dict(schema, type=kind)})
        vals = values(c.rng, kind, schema)[:24]
        a = A()
        for v in vals:
            if v is None:
                continue
            c.log('prop', kind, v)
            judge(c, 'property constructed from', kind, schema, v, lambda: A(p=v).p)

            def assign():
                a.p = v
                return a.p
            judge(c, 'property assigned', kind, schema, v, assign)

            def assign_item():
                a['p'] = v
                return a['p']
            judge(c, 'item assigned', kind, schema, v, assign_item)
            judge(c, 'array item', kind, schema, v, lambda: L([v])[0])
            judge(c, 'item of an array property', kind, schema, v, lambda: A(l=[v]).l[0])
