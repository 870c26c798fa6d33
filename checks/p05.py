# -*- coding: utf-8 -*-
"""P05 - enumerated types only ever yield their members."""
from harness import gen


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    run.rule = 'a distinct non-trivial case is an (enumeration, base type, default, entry point) with 2 to 7 members'
    run.assumptions = ['raw values are strings, integers and None; members of one enumeration are pairwise different']
    run.require(member=300, index=100, rejected=300, empty=50, validate=300)

    def make(rng):
        n = rng.randint(2, 7)
        kind = rng.choice(['string', 'integer', 'mixed', 'digits'])
        mem = []
        while len(mem) < n:
            if kind == 'string':
                m = gen.text(rng, 6)
            elif kind == 'integer':
                m = rng.randint(-12, 12)
            elif kind == 'digits':
                m = str(rng.randint(-3, 12))
            else:
                m = rng.choice([gen.word(rng, 3), rng.randint(-5, 9)])
            if m in mem or m == '' or (isinstance(m, str) and not m.strip()):
                continue
            mem.append(m)
        return kind, mem

    def as_int(v):
        if isinstance(v, int):
            return v
        try:
            return int(v)
        except (TypeError, ValueError):
            return None

    def oracle(mem, default, v):
        """-> (ok, value)"""
        if v is None:
            return True, default if default is not None else mem[0]
        if v in mem:
            return True, v
        i = as_int(v)
        if i is not None:
            if i in mem:
                return True, i
            if 0 <= i < len(mem):
                return True, mem[i]
            return False, None
        if v == '':
            return True, mem[0]
        return False, None

    def values(rng, mem):
        n = len(mem)
        out = list(mem) + [str(m) for m in mem] + [None, '', 'nope', 'zzz9', -1, n, n - 1, 0, n + 3, -n, 1, '0', '1',
                                                  str(n), str(n - 1), '-1', 99, -99, gen.text(rng), gen.word(rng),
                                                  ' ', 'None']
        out += [m + 'x' for m in mem if isinstance(m, str)] + [m.upper() + 'Q' for m in mem if isinstance(m, str)]
        rng.shuffle(out)
        return out

    def judge(c, what, mem, default, v, fun):
        ok, want = oracle(mem, default, v)
        if not ok:
            c.raises(fun, '%s %r with %r must be rejected', what, mem, v, kinds=(ConversionError, InvalidValue))
            c.hit('rejected')
            return
        got = fun()
        c.expect(got in mem, '%s %r with %r gave %r, not a member', what, mem, v, got)
        c.equal(got, want, '%s %r with %r', what, mem, v)
        c.hit('empty' if v in (None, '') else 'member' if v in mem else 'index')

    @run.workload('types', quick=250)
    def _(c):
        kind, mem = make(c.rng)
        base = {'string': c.rng.choice(['string', None]), 'digits': c.rng.choice(['string', None]),
                'integer': c.rng.choice(['integer', None]), 'mixed': None}[kind]
        schema = {'enum': list(mem)}
        if base:
            schema['type'] = base
        default = None
        if c.rng.random() < .4:
            schema['default'] = default = c.rng.choice(mem)
        t = gen.build(gen.uid(c, 'enum'), schema)
        c.sig(mem, base, default)
        for v in values(c.rng, mem):
            c.log('eval', v)
            judge(c, 'enumeration', mem, default, v, lambda: t(v))
            if v is not None:
                if v in mem:
                    c.expect(t.validate(v) == v, 'validate(%r) of %r', v, mem)
                    c.expect(t.check(v) is True, 'check(%r) of %r is not True', v, mem)
                else:
                    c.raises(lambda: t.validate(v), 'validate(%r) of %r', v, mem, kinds=InvalidValue)
                c.hit('validate')
        c.equal(list(t._schema['enum']) if hasattr(t, '_schema') else mem, mem, 'the enumeration changed')

    @run.workload('properties', quick=120)
    def _(c):
        kind, mem = make(c.rng)
        schema = {'enum': list(mem)}
        default = None
        if c.rng.random() < .4:
            schema['default'] = default = c.rng.choice(mem)
        A = gen.pclass({'properties': {'e': schema, 'l': {'type': 'array', 'items': {'enum': list(mem)}}}}, gen.uid(c))
        c.sig(mem, default)
        a = A()
        c.equal(a.e, default if default is not None else mem[0], 'unset enumerated property of %r', mem)
        for v in values(c.rng, mem):
            if v is None:
                continue
            c.log('set', v)
            judge(c, 'constructed property', mem, default, v, lambda: A(e=v).e)

            def assign():
                a.e = v
                return a.e
            judge(c, 'assigned property', mem, default, v, assign)
            judge(c, 'array item', mem, None, v, lambda: A(l=[v]).l[0])
