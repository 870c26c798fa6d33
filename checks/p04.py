# -*- coding: utf-8 -*-
"""P04 - literals: expressions and templates are evaluated in the context, converted and validated."""
import datetime
import pathlib
from decimal import Decimal

from harness import gen, lits

NAMES = ['s1', 'name', 'x_y', 'Tt']
INTS = ['n1', 'count', 'k_2']


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    from ngoschema.types import String, Integer, Number, Boolean, Date, Uri, Path
    from ngoschema.utils import Context
    run.rule = 'a distinct non-trivial case is a (literal text, context, target type, entry point)'
    run.assumptions = ['literals only read names of their context and builtins', 'text values contain no delimiter']
    run.require(constraint=20, expression=160, inputs=170, once=40, property=70, raw=70, template=120, unresolved=90)

    def env(rng):
        e = {n: gen.word(rng, 6) for n in NAMES}
        e.update({n: rng.randint(-9, 20) for n in INTS})
        e['xs'] = [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]
        return e

    def literal(rng, kind):
        """-> text, names, f: the literal evaluates to raw data for kind"""
        k = rng.random()
        if kind == 'integer':
            if k < .75:
                t, n, f = lits.int_expr(rng, INTS, rng.randint(0, 3))
                return '`' + t.replace('this.', ''), n, f
            m = rng.choice(INTS)
            return '{{ %s + 100 }}' % m, {m}, lambda e: e[m] + 100
        if kind == 'number':
            t, n, f = lits.int_expr(rng, INTS, rng.randint(0, 2))
            t = t.replace('this.', '')
            if k < .5:
                return '`(%s) / 4' % t, n, lambda e: Decimal(f(e)) / 4
            return '`%s' % t, n, lambda e: Decimal(f(e))
        if kind == 'boolean':
            t, n, f = lits.int_expr(rng, INTS, rng.randint(0, 2))
            t = t.replace('this.', '')
            if k < .7:
                return '`%s > 4' % t, n, lambda e: f(e) > 4
            m = rng.choice(INTS)
            return '{{ %s > 4 }}' % m, {m}, lambda e: e[m] > 4
        if k < .5:
            t, n, f = lits.str_expr(rng, NAMES, INTS)
            return '`' + t, n, f
        t, n, f = lits.template(rng, NAMES, INTS, ['xs'])
        return t.replace('this.', ''), n, f

    TYPES = {'string': String, 'integer': Integer, 'number': Number, 'boolean': Boolean}

    @run.workload('types', quick=85, thorough=6000)
    def _(c):
        rng = c.rng
        e = env(rng)
        # names of the context hide the globals of templates and expressions
        n = rng.choice(['range', 'dict', 'lipsum', 'cycler', 'joiner', 'namespace', 'max', 'str', 'len'])
        for text in ('`' + n, '{{%s}}' % n, 'x{{ %s }}' % n) * 2:
            v = gen.word(rng)
            c.equal(String()(text, **{n: v}), ('x' if text[0] == 'x' else '') + v, '%r where %s is %r', text, n, v)
            c.equal(String()(text, context=Context({n: v + '1'}, e)), ('x' if text[0] == 'x' else '') + v + '1', '%r where %s is %r', text, n, v + '1')
            c.hit('hidden')
        # what is between the names is kept as it is
        gap = ''.join(rng.choice(' \t') for _ in range(rng.randint(2, 4)))
        m = rng.choice(NAMES)
        c.equal(String()('`"a%sb" + %s' % (gap, m), **e), 'a%sb%s' % (gap, e[m]), 'spaces of an expression')
        c.equal(String()('a%s\n%s{{%s}}%sb' % (gap, gap, m, gap), **e), 'a%s\n%s%s%sb' % (gap, gap, e[m], gap), 'spaces of a template')
        for kind in ('string', 'integer', 'number', 'boolean', 'string'):
            text, names, f = literal(rng, kind)
            want = f(e)
            t = TYPES[kind]()
            c.sig(text, kind, tuple(sorted((k, str(v)) for k, v in e.items())))
            c.log('literal', kind, text)
            # the literal is the first thing in the text, whatever the way the context is given
            c.equal(t(text, **e), want, '%s %r in %r', kind, text, e)
            c.equal(t(text, context=Context(**e)), want, '%s %r in a context %r', kind, text, e)
            outer = {k: (v if not isinstance(v, int) else v + 1000) for k, v in e.items()}
            c.equal(t(text, context=Context(e, outer)), want, '%s %r: the first mapping of the context wins', kind, text)
            c.equal(t(text, context=Context(**outer).create_child(**e)), want, '%s %r: a child context wins', kind, text)
            c.hit('template' if not text.startswith('`') else 'expression')
            # a second evaluation, in another context, does not remember the first one
            e2 = env(rng)
            c.equal(t(text, **e2), f(e2), '%s %r evaluated a second time in %r', kind, text, e2)
            # inputs
            got = t.inputs(text)
            c.expect(set(x.split('.')[0] for x in got) >= names, 'inputs of %r are %r, it reads %r', text, got, names)
            extra = set(x.split('.')[0] for x in got) - names
            c.expect(not extra.intersection(e), 'inputs of %r name %r, which it does not read', text, extra)
            c.hit('inputs')

    @run.workload('once', quick=40, thorough=600)
    def _(c):
        # a literal is evaluated once: what it yields is data, even when it looks like a literal
        rng = c.rng
        e = env(rng)
        for _i in range(3):
            inner = literal(rng, rng.choice(['string', 'integer']))[0]
            c.sig(inner, 'once')
            for outer in ('`held', '{{held}}', '{{ held }}'):
                c.equal(String()(outer, held=inner, **e), inner, '%r where held is %r', outer, inner)
            c.equal(String()('{{s1}}:{{held}}', held=inner, **e), e['s1'] + ':' + inner, 'a template holding %r', inner)
            A = gen.pclass({'properties': {'r': {'type': 'string', 'rawLiterals': True}, 's1': {'type': 'string'},
                                           'x': {'type': 'string'}, 'y': {'type': 'string'}}}, gen.uid(c))
            a = A(r=inner, x='`r', y='{{r}}', s1=e['s1'])
            c.equal(a.x, inner, 'an expression reading the raw %r', inner)
            c.equal(a.y, inner, 'a template reading the raw %r', inner)
            c.hit('once')

    @run.workload('raw', quick=60, thorough=2500)
    def _(c):
        rng = c.rng
        e = env(rng)
        for _i in range(3):
            text, names, f = literal(rng, 'string')
            c.sig(text, 'raw')
            t = gen.build(gen.uid(c, 'raw'), {'type': 'string', 'rawLiterals': True})
            c.equal(t(text, **e), text, 'rawLiterals in the schema keep %r')
            c.equal(String()(text, raw_literals=True, **e), text, 'raw_literals keeps %r')
            c.expect(not t.inputs(text), 'a raw literal %r has inputs %r', text, t.inputs(text))
            A = gen.pclass({'properties': {'r': {'type': 'string', 'rawLiterals': True},
                                           'v': {'type': 'string'}}}, gen.uid(c))
            a = A(r=text, v='plain')
            c.equal(a.r, text, 'raw property given %r', text)
            a.r = text + 'z'
            c.equal(a.r, text + 'z', 'raw property assigned %r', text)
            B = gen.pclass({'properties': {'r': {'type': 'string', 'rawLiterals': True, 'default': text},
                                           'l': {'type': 'array', 'items': {'type': 'string', 'rawLiterals': True}},
                                           's1': {'type': 'string'}}}, gen.uid(c))
            other = literal(rng, 'string')[0]
            b = B(s1=e['s1'])
            c.equal(b.r, text, 'default of a raw property')
            b = B(r=text, s1=e['s1'], l=[other, text])
            c.equal(b.r, text, 'raw property given its default')
            b.r = other
            c.equal(b.r, other, 'raw property with a default assigned %r', other)
            b['r'] = text
            c.equal(b['r'], text, 'raw property assigned its default')
            c.equal(list(b.l), [other, text], 'raw items')
            c.hit('raw')
            # plain text, with anything that is not a literal in it, is kept
            for plain in ('it`s', 'a ` b', '{a}', '} {', '%}', 'a {b} c', '$x', 'n1', "'s1'"):
                c.equal(String()(plain, **e), plain, 'plain text %r', plain)

    @run.workload('constraints', quick=60, thorough=2000)
    def _(c):
        rng = c.rng
        e = env(rng)
        text, names, f = literal(rng, 'integer')
        want = f(e)
        lo, hi = sorted([rng.randint(-30, 60), rng.randint(-30, 60)])
        t = gen.build(gen.uid(c, 'i'), {'type': 'integer', 'minimum': lo, 'maximum': hi})
        c.sig(text, lo, hi, want)
        if lo <= want <= hi:
            c.equal(t(text, **e), want, '%r within [%i, %i]', text, lo, hi)
        else:
            c.raises(lambda: t(text, **e), '%r is %r, out of [%i, %i]', text, want, lo, hi, kinds=InvalidValue)
        text, names, f = literal(rng, 'string')
        want = f(e)
        m = rng.randint(0, 10)
        t = gen.build(gen.uid(c, 's'), {'type': 'string', 'maxLength': m})
        if len(want) <= m:
            c.equal(t(text, **e), want, '%r of at most %i', text, m)
        else:
            c.raises(lambda: t(text, **e), '%r is %r, longer than %i', text, want, m, kinds=InvalidValue)
        c.hit('constraint')
        # what cannot be evaluated is not a value of a typed scalar
        for bad in ('`zz_top + 1', '`n1 +', '`1/0', '`s1.nothing'):
            for T in (Integer, Number, Boolean, Date):
                c.raises(lambda: T()(bad, **e), '%s %r', T.__name__, bad, kinds=(ConversionError, InvalidValue))
            c.hit('unresolved')
        # an expression of the wrong kind is converted as any value would be
        c.equal(Integer()("`'4' + '2'", **e), 42, 'text to integer')
        c.equal(String()('`n1', **e), str(e['n1']), 'integer to text')
        c.raises(lambda: Integer()('`s1', **e), 'text %r to integer', e['s1'], kinds=ConversionError)
        c.equal(Integer()('`None', **e), None, 'an expression without value')

    @run.workload('typed', quick=60, thorough=600)
    def _(c):
        rng = c.rng
        d = datetime.date(rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28))
        w, h = gen.word(rng), gen.word(rng)
        c.sig(str(d), w, h)
        c.equal(Date()('`d', d=d), d, 'a date expression')
        c.equal(Date()('{{y}}-{{m}}-{{d}}', y=d.year, m='%02d' % d.month, d='%02d' % d.day), d, 'a date template')
        c.equal(Uri()('http://{{h}}/{{w}}', h=h, w=w).geturl(), 'http://%s/%s' % (h, w), 'a uri template')
        c.equal(Path()('{{w}}/{{h}}.txt', h=h, w=w), pathlib.PosixPath(w) / (h + '.txt'), 'a path template')
        c.equal(Path()("`w + '/' + h", h=h, w=w), pathlib.PosixPath(w) / h, 'a path expression')
        c.hit('template', 3)
        c.hit('expression', 2)

    @run.workload('properties', quick=190, thorough=2000)
    def _(c):
        rng = c.rng
        e = env(rng)
        kind = rng.choice(['string', 'integer', 'number', 'boolean'])
        text, names, f = literal(rng, kind)
        props = {n: {'type': 'string'} for n in NAMES}
        props.update({n: {'type': 'integer'} for n in INTS})
        props['xs'] = {'type': 'array', 'items': {'type': 'integer'}}
        mode = rng.choice(['given', 'assigned', 'item', 'default'])
        props['derived'] = {'type': kind}
        if mode == 'default':
            props['derived']['default'] = text
        if rng.random() < .3:
            # same class with the values as defaults
            for n in NAMES + INTS:
                props[n] = dict(props[n], default=e[n])
        A = gen.pclass({'properties': props}, gen.uid(c))
        kw = list(e.items())
        rng.shuffle(kw)
        kw = dict(kw)
        if mode == 'given':
            kw['derived'] = text
            if rng.random() < .5:
                kw = dict([('derived', text)] + list(e.items()))
        a = A(**kw) if rng.random() < .5 else A(kw)
        if mode == 'assigned':
            a.derived = text
        elif mode == 'item':
            a['derived'] = text
        c.sig(text, kind, mode)
        c.log('property', mode, kind, text)
        want = f(e)
        c.equal(a.derived, want, 'property %s with %r among %r', mode, text, e)
        c.equal(a['derived'], want, 'item %s with %r among %r', mode, text, e)
        c.equal(a.get('derived'), want, 'get %s with %r among %r', mode, text, e)
        c.equal(dict(a)['derived'], want, 'mapping %s with %r among %r', mode, text, e)
        a.derived = 'plain' if kind == 'string' else 'true' if kind == 'boolean' else 7
        c.equal(a.derived, 'plain' if kind == 'string' else True if kind == 'boolean' else Decimal(7) if kind == 'number' else 7,
                'a literal replaced by a value')
        c.hit('property')
