# -*- coding: utf-8 -*-
"""P45 - types registered by the user are types like those of the library."""
from decimal import Decimal

from harness import gen
from checks.p01 import Reject, convert, make_schema, satisfies

TEXTS = {'upper': str.upper, 'lower': str.lower, 'strip': str.strip, 'first': lambda s: s[:3], 'joined': lambda s: s.replace(' ', '_'),
         'plain': lambda s: s}
INTS = {'abs': abs, 'clamp': lambda i: min(i, 10), 'even': lambda i: i - i % 2, 'plain': lambda i: i}
# ways to write them which read the same
OPPOSITE = {'upper': str.lower, 'lower': str.upper, 'abs': lambda i: -i, 'strip': lambda s: ' %s ' % s}


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __eq__(self, other):
        return type(other) is Point and (self.x, self.y) == (other.x, other.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return 'Point(%r, %r)' % (self.x, self.y)


def point(v):
    if isinstance(v, Point):
        return v
    try:
        x, y = v.split(';')
        return Point(int(x), int(y))
    except Exception:
        raise Reject('conversion')


def register(run):
    from ngoschema import types as T
    from ngoschema.managers.type_builder import register_type, type_builder
    from ngoschema.exceptions import ConversionError, InvalidValue
    run.rule = 'a distinct non-trivial case is a registered type, its keywords and a value of a way to use it'
    run.assumptions = ['conversions of the registered types give themselves when applied again']
    run.require(accepted=370, as_additional=30, as_assigned=40, as_built=40, as_default=20, as_expression=20, as_inline=30,
                as_instance=40, as_item=30, as_pattern=40, as_property=40, checked=660, extended=130, of_integer=120,
                of_point=80, of_string=160, own_serialization=30, refused=410, registered_again=90, serialized=80)
    REFUSED = (ConversionError, InvalidValue)

    class Custom:
        """a registered type and what it does"""
        def __init__(self, c, kind, previous=None):
            rng = c.rng
            self.kind = kind
            self.name = previous or '%s_%s_%i' % (rng.choice(['my', 'ngo', 'a-b', 'X']), gen.word(rng), c.index)
            self.f = self.ser = lambda v: v
            if kind == 'point':
                self.schema = {}
                self.ser = lambda w: '%i;%i' % (w.x, w.y)

                class P(T.Primitive):
                    _pyType = Point

                    @staticmethod
                    def _convert(self, value, **opts):
                        if isinstance(value, Point):
                            return value
                        v = T.String.convert(value, **opts) if isinstance(value, str) else value
                        try:
                            return point(v)
                        except Reject:
                            raise ConversionError('%r is not a point' % (v, ))

                    @staticmethod
                    def _serialize(self, value, **opts):
                        return None if value is None else '%i;%i' % (value.x, value.y)
                cls = P
            else:
                base = T.String if kind == 'string' else T.Integer
                which = rng.choice(sorted(TEXTS if kind == 'string' else INTS))
                f = self.f = (TEXTS if kind == 'string' else INTS)[which]
                c.log('type', self.name, kind, which)
                self.schema = make_schema(rng, kind) if rng.random() < .6 else {}

                class P(base):
                    @staticmethod
                    def _convert(self, value, **opts):
                        v = base._convert(self, value, **opts)
                        return f(v) if isinstance(v, self._pyType) and not opts.get('raw_literals') else v

                if which in OPPOSITE and rng.random() < .5:
                    ser = self.ser = OPPOSITE[which]

                    class P(P):
                        @staticmethod
                        def _serialize(self, value, **opts):
                            return None if value is None else ser(value)
                    c.hit('own_serialization')
                cls = P
                if self.schema or rng.random() < .3:
                    cls = P.extend_type(gen.word(rng) + 'Reg%i' % c.index, **self.schema)
                    c.hit('extended')
            cls.__name__ = gen.word(rng).title()
            self.cls = register_type(self.name)(cls)
            c.expect(self.cls is cls, 'register_type gives another class')
            c.expect(type_builder.get_type(self.name) is cls, 'the type registered as %s is another', self.name)

        def want(self, v, more):
            """value, or Reject"""
            w = point(v) if self.kind == 'point' else self.f(convert(self.kind, v))
            if self.kind != 'point' and not satisfies(self.kind, w, dict(self.schema, **more)):
                raise Reject('constraint')
            return w

        def values(self, rng):
            if self.kind == 'point':
                return ['1;2', '-3;40', ' 5;6', Point(7, 8), 'x', '1;2;3', 4, '1;', ['1', '2']]
            if self.kind == 'integer':
                return [0, 3, -3, '8', '-12', 25, 'x', 11, '4', True, -7, [1], 9.0]
            return ['abc', ' a b ', 'ABC d', '', 'foo', 'z', 'xyZ9', 5, True, 'a' * 9, gen.text(rng), gen.text(rng), Decimal('1.50')]

    def judge(c, t, more, v, fun, what):
        try:
            want = t.want(v, more)
        except Reject:
            c.raises(fun, '%s of type %s %r: %r', what, t.name, dict(t.schema, **more), v, kinds=REFUSED)
            c.hit('refused')
            return
        got = fun()
        c.expect(type(got) is type(want) and got == want, '%s of type %s %r: %r reads %r instead of %r', what, t.name,
                 dict(t.schema, **more), v, got, want)
        c.hit('accepted')
        c.hit('of_' + t.kind)
        c.hit('as_' + what.split()[-1])

    def use(c, t, more, v, ways):
        """one of the ways to use a type"""
        rng = c.rng
        hows = ['instance', 'inline']
        if not ways.get('frozen') or 'class' in ways:
            hows += ['property', 'assigned', 'item', 'additional', 'pattern']
        hows += [h for h in ('built', 'expression') if not ways.get('frozen') or h in ways]
        if not ways.get('frozen'):
            hows.append('default')
        how = rng.choice(hows)
        c.log(how, v)
        if how == 'instance':
            cls = ways.setdefault(how, t.cls(**more))
            judge(c, t, more, v, lambda: cls(v), 'an instance')
        elif how == 'built':
            if how not in ways:
                ways[how] = gen.build(gen.uid(c, 't'), dict(more, type=t.name))
            judge(c, t, more, v, lambda: ways[how](v), 'a type built')
        elif how == 'inline':
            A = T.Array(items=t.cls(**more))
            if isinstance(v, (list, Point)):
                return
            judge(c, t, more, v, lambda: A([v])[0], 'an item of an inline')
        else:
            if 'class' not in ways:
                s = dict(more, type=t.name)
                ways['class'] = gen.pclass({'type': 'object', 'properties': {
                    'p': dict(s), 'l': {'type': 'array', 'items': dict(s)}, 'n': {'type': 'object', 'properties': {'p': dict(s)}}},
                    'patternProperties': {'^x_': dict(s)}, 'additionalProperties': dict(s)}, gen.uid(c, 'C'), name='C')
            C = ways['class']
            if how == 'property':
                nested = rng.random() < .3
                judge(c, t, more, v, lambda: C({'n': {'p': v}}).n.p if nested else C({'p': v}).p, 'a property')
            elif how == 'assigned':
                def fun():
                    o = C()
                    o.p = v
                    return rng.choice([lambda: o.p, lambda: o['p']])()
                judge(c, t, more, v, fun, 'an assigned')
            elif how == 'item':
                if isinstance(v, list):
                    return
                judge(c, t, more, v, lambda: C({'l': [v]}).l[0], 'an item')
            elif how == 'additional':
                judge(c, t, more, v, lambda: C({'other': v})['other'], 'additional')
            elif how == 'pattern':
                judge(c, t, more, v, lambda: C({'x_1': v})['x_1'], 'a pattern')
            elif how == 'expression':
                if not isinstance(v, (str, int)):
                    return
                E = ways.setdefault('expression', gen.pclass({'type': 'object', 'properties': {'raw': {}, 'p': dict(more, type=t.name)}},
                                                       gen.uid(c, 'E'), name='E'))
                if not v or isinstance(v, bool):
                    return
                judge(c, t, more, v, lambda: E({'p': '`%r' % (v, )}).p, 'an expression')
            else:
                if not isinstance(v, (str, int)) or v in ('', 0):
                    return
                try:
                    # declared as it is once converted
                    v = t.want(v, more)
                except Reject:
                    return
                if t.kind == 'point' or not v:
                    return
                D = gen.pclass({'type': 'object', 'properties': {'p': dict(more, type=t.name, default=v)}}, gen.uid(c, 'D'), name='D')
                judge(c, t, more, v, lambda: D().p, 'a default')
            # what reads can be written, and read again
            try:
                w = t.want(v, more)
            except Reject:
                return
            if how in ('property', 'assigned'):
                o = C({'p': v})
                d = o.do_serialize()
                c.equal(d['p'], t.ser(w), 'serialization of a property')
                c.equal(C(d).p, w, 'value read from the serialization')
                o = C({'l': [v, v], 'n': {'p': v}, 'x_1': v})
                d = o.do_serialize()
                c.equal([d['l'], d['n']['p'], d['x_1']], [[t.ser(w)] * 2, t.ser(w), t.ser(w)], 'serialization of items')
                o = C(d)
                c.equal([list(o.l), o.n.p, o['x_1']], [[w] * 2, w, w], 'items read from the serialization')
                c.hit('serialized')

    @run.workload('types', quick=120, thorough=3000)
    def _(c):
        rng = c.rng
        kinds = [rng.choice(['string', 'integer', 'point']) for _ in range(rng.randint(1, 3))]
        made = []
        for k in kinds:
            t = Custom(c, k)
            more = make_schema(rng, k) if k != 'point' and rng.random() < .5 else {}
            made.append((t, more, {}))
        c.sig([(t.name, sorted(t.schema.items(), key=str), sorted(m.items(), key=str)) for t, m, _ in made])
        for _i in range(rng.randint(6, 14)):
            t, more, ways = rng.choice(made)
            use(c, t, more, rng.choice(t.values(rng)), ways)
            if rng.random() < .1:
                # another type under this name: those which are made are not changed, those made afterwards are of the new one
                new = Custom(c, rng.choice(['string', 'integer']), previous=t.name)
                for m in made:
                    if m[0].name == new.name:
                        m[2]['frozen'] = True
                made.append((new, {}, {}))
                c.hit('registered_again')
            # the types of the library are what they were
            c.equal(T.String()('aB c'), 'aB c', 'text')
            c.equal(T.Integer()('-13'), -13, 'integer')
            c.expect(type_builder.get_type('string') is T.String and type_builder.get_type('integer') is T.Integer, 'registered types')
            if not ways.get('frozen'):
                v = rng.choice(['abc', 3, 'x', 12, Point(1, 2)])
                typed = isinstance(v, {'string': str, 'integer': int, 'point': Point}[t.kind])
                c.expect(t.cls.check(v) is typed, 'check of %r is %r', v, not typed)
                c.expect(type_builder.is_type(v, t.name) is typed, 'is_type of %r is %r', v, not typed)
                c.hit('checked')
