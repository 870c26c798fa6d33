# -*- coding: utf-8 -*-
"""P16 - array properties behave as lists of values of the declared type."""
import collections
from harness import gen
from harness.objmodel import KInt, KStr, KNum, KDate, KBool, KObj, same, plain


def register(run):
    from ngoschema.exceptions import ConversionError, InvalidValue
    REFUSED = (ConversionError, InvalidValue)
    run.rule = 'a distinct non-trivial case is a (item type, history of at least 10 list operations)'
    run.assumptions = ['items are not None and not literals', 'positional item types cover all the items']
    run.require(step=800, contents=400, refused=80, slices=100, moved=100, nested=40, split=20, positional=20)

    KINDS = [KInt, KInt, KStr, KNum, KDate, KBool, KObj]

    def contents(c, l, want, what):
        k = c.rng.random()
        if k < .35:
            got = list(l)
        elif k < .5:
            got = [l[i] for i in range(len(l))]
        elif k < .6:
            got = [l[i - len(l)] for i in range(len(l))]
        elif k < .7:
            got = list(l[:])
        elif k < .8:
            got = list(reversed(l))[::-1]
        else:
            got = [v for i, v in enumerate(l)]
        c.equal(len(l), len(want), '%s: length', what)
        c.expect(same(got, want), '%s: the array reads %r, expected %r', what, plain(got), want)
        c.raises(lambda: l[len(want)], '%s: item after the last', what, kinds=IndexError)
        c.hit('contents')

    @run.workload('history', quick=110, thorough=3000)
    def _(c):
        rng = c.rng
        t = rng.choice(KINDS)(rng)
        sch = {'type': 'array', 'items': dict(t.schema)}
        lazy = rng.choice([None, None, True, False])
        if lazy is not None:
            sch['lazyLoading'] = lazy
        how = rng.choice(['property', 'nested', 'class'])
        want = [t.typed(rng) for _ in range(rng.randint(0, 5))]
        raw = [t.raw(rng, v) for v in want]
        given = list(raw) if rng.random() < .7 else tuple(raw)
        keep = list(given)
        owner = None
        if how == 'property':
            owner = gen.pclass({'properties': {'l': sch, 'other': {'type': 'integer'}}}, gen.uid(c))(l=given)
            l = owner.l
        elif how == 'nested':
            owner = gen.pclass({'properties': {'o': {'type': 'object', 'properties': {'l': sch}}}}, gen.uid(c))(o={'l': given})
            owner, l = owner.o, owner.o.l
        else:
            l = gen.build(gen.uid(c), sch)(given)
        lazy_now = bool(l._lazyLoading)
        n = rng.randint(10, 18)
        c.sig(str(sch), str(raw), how, n)
        c.log('construct', how, sch, given)
        contents(c, l, want, 'new array')
        c.expect(list(given) == keep, 'the sequence of the caller changed from %r to %r', keep, given)

        def item():
            v = t.typed(rng)
            return t.raw(rng, v), v

        def index(k=None):
            return rng.randint(-len(want), len(want) - 1)

        ops = ['append', 'append', 'insert', 'insert', 'set', 'set', 'del', 'pop', 'popi', 'remove', 'extend', 'iadd', 'reverse',
               'getslice', 'setslice', 'delslice', 'index', 'in', 'bad', 'bad', 'badset', 'clear', 'wrong', 'equal', 'serialize',
               'reassign']
        for _i in range(n):
            op = rng.choice(ops)
            c.hit('step')
            if op == 'clear' and rng.random() < .6:
                continue
            if op in ('set', 'del', 'popi', 'remove', 'badset') and not want:
                c.raises(lambda: l.pop(), 'pop from an empty array', kinds=IndexError)
                continue
            if op == 'append':
                r, v = item()
                c.log(op, r)
                l.append(r)
                want.append(v)
            elif op == 'insert':
                r, v = item()
                i = rng.randint(-len(want) - 2, len(want) + 3)
                c.log(op, i, r)
                l.insert(i, r)
                want.insert(i, v)
                c.hit('moved')
            elif op == 'set':
                r, v = item()
                i = index()
                c.log(op, i, r)
                l[i] = r
                want[i] = v
            elif op == 'del':
                i = index()
                c.log(op, i)
                del l[i]
                del want[i]
                c.hit('moved')
            elif op in ('pop', 'popi'):
                if not want:
                    continue
                i = -1 if op == 'pop' else index()
                c.log(op, i)
                got = l.pop() if op == 'pop' else l.pop(i)
                w = want.pop(i)
                c.expect(same(got, w), 'pop of %i gives %r, expected %r', i, got, w)
                c.hit('moved')
            elif op == 'remove':
                w = rng.choice(want)
                c.log(op, w)
                l.remove(w)
                want.remove(w)
                c.hit('moved')
            elif op in ('extend', 'iadd'):
                rs = [item() for _ in range(rng.randint(0, 3))]
                c.log(op, [r for r, v in rs])
                if op == 'extend':
                    l.extend([r for r, v in rs])
                elif owner is not None and rng.random() < .5:
                    owner.l += [r for r, v in rs]
                    c.expect(same(owner.l, want + [v for r, v in rs]), 'augmented assignment gives %r', plain(owner.l))
                    l = owner.l
                else:
                    l += [r for r, v in rs]
                want += [v for r, v in rs]
            elif op == 'reverse':
                c.log(op)
                l.reverse()
                want.reverse()
                c.hit('moved')
            elif op.endswith('slice'):
                s = slice(*[rng.choice([None, rng.randint(-4, 6)]) for _ in range(2)])
                if op == 'getslice':
                    s = slice(s.start, s.stop, rng.choice([None, 2, -1]))
                    c.log(op, s)
                    got = l[s]
                    c.expect(same(list(got), want[s]), 'slice %r gives %r, expected %r', s, plain(got), want[s])
                elif op == 'setslice':
                    rs = [item() for _ in range(rng.randint(0, 3))]
                    c.log(op, s, [r for r, v in rs])
                    l[s] = [r for r, v in rs]
                    want[s] = [v for r, v in rs]
                else:
                    c.log(op, s)
                    del l[s]
                    del want[s]
                c.hit('slices')
            elif op == 'index':
                v = rng.choice(want) if want and rng.random() < .7 else t.typed(rng)
                c.log(op, v)
                c.equal(l.count(v), want.count(v), 'count of %r', v)
                if v in want:
                    c.equal(l.index(v), want.index(v), 'index of %r', v)
                else:
                    c.raises(lambda: l.index(v), 'index of missing %r', v, kinds=ValueError)
                    c.raises(lambda: l.remove(v), 'removal of missing %r', v, kinds=ValueError)
            elif op == 'in':
                v = t.typed(rng)
                c.equal(v in l, v in want, 'membership of %r', v)
                c.equal(bool(l), bool(want), 'truth of an array of %i items', len(want))
            elif op == 'bad':
                b = t.bad(rng)
                if b is None or isinstance(b, list) or lazy_now:
                    continue
                i = rng.randint(-len(want) - 1, len(want) + 2)
                f = rng.choice([lambda: l.append(b), lambda: l.insert(i, b)])
                c.log(op, i, b)
                c.raises(f, 'item %r of type %s added', b, t.schema, kinds=REFUSED)
                c.hit('refused')
            elif op == 'badset':
                b = t.bad(rng)
                if b is None or isinstance(b, list) or lazy_now:
                    continue
                i = index()
                r, v = item()
                c.log(op, i, b, r)
                c.raises(lambda: l.__setitem__(i, b), 'item %r of type %s assigned', b, t.schema, kinds=REFUSED)
                for j in range(len(want)):
                    if j == i % len(want):
                        c.raises(lambda: l[j], 'item holding %r', b, kinds=REFUSED)
                    else:
                        c.expect(same(l[j], want[j]), 'item %i reads %r after item %i was refused, expected %r', j, l[j], i, want[j])
                l[i] = r
                want[i] = v
                c.hit('refused')
            elif op == 'clear':
                c.log(op)
                l.clear()
                want = []
            elif op == 'wrong':
                i = rng.choice([len(want), len(want) + 3, -len(want) - 1])
                c.raises(lambda: l[i], 'item %i of %i', i, len(want), kinds=IndexError)
                c.raises(lambda: l.__delitem__(i), 'item %i of %i deleted', i, len(want), kinds=IndexError)
                r, v = item()
                c.raises(lambda: l.__setitem__(i, r), 'item %i of %i assigned', i, len(want), kinds=IndexError)
            elif op == 'equal':
                m = type(l)([t.raw(rng, v) for v in want])
                c.expect(l == m and m == l and not l != m, 'arrays of equal items %r are not equal', want)
                m.append(t.typed(rng))
                c.expect(not l == m and not m == l, 'arrays %r and %r are equal', want, plain(m))
            elif op == 'serialize':
                got = l.do_serialize() if owner is None else owner.do_serialize().get('l', [])
                c.equal(len(got), len(want), 'length of the serialization %r of %r', got, want)
                back = type(l)(got)
                c.expect(same(back, want), 'serialized as %r, which reads %r, expected %r', got, plain(back), want)
            elif op == 'reassign' and owner is not None:
                rs = [item() for _ in range(rng.randint(0, 4))]
                c.log(op, [r for r, v in rs])
                old, was = l, list(want)
                owner.l = [r for r, v in rs]
                l = owner.l
                want = [v for r, v in rs]
                c.expect(same(old, was), 'the previous array became %r, it was %r', plain(old), was)
            if rng.random() < .6 or op in ('bad', 'setslice', 'insert'):
                contents(c, l, want, 'after ' + op)
                if owner is not None:
                    c.expect(same(owner.l, want), 'the owner reads %r after %s, expected %r', plain(owner.l), op, want)
        contents(c, l, want, 'the end')

    @run.workload('nested', quick=40, thorough=800)
    def _(c):
        """arrays of arrays and of objects: items are live"""
        rng = c.rng
        S = {'properties': {'m': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer', 'minimum': 0}}},
                            'os': {'type': 'array', 'items': {'type': 'object', 'properties': {
                                'q': {'type': 'integer', 'minimum': 0}, 'l': {'type': 'array', 'items': {'type': 'string'}}}}}}}
        A = gen.pclass(S, gen.uid(c))
        m = [[rng.randint(0, 9) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(1, 3))]
        os = [{'q': rng.randint(0, 9), 'l': [gen.word(rng)]} for _ in range(rng.randint(1, 3))]
        a = A(m=[list(map(str, r)) for r in m], os=[dict(o, l=list(o['l'])) for o in os])
        c.sig(str(m), str(os))
        for _i in range(8):
            op = rng.choice(['row', 'cell', 'addrow', 'swap', 'oq', 'ol', 'addo', 'delo', 'bad'])
            c.log(op)
            if op == 'row' and m:
                i = rng.randrange(len(m))
                a.m[i].append('7')
                m[i].append(7)
            elif op == 'cell':
                i = rng.randrange(len(m)) if m else None
                if i is not None and m[i]:
                    a.m[i][-1] = 5
                    m[i][-1] = 5
            elif op == 'addrow':
                a.m.insert(0, ['1', 2])
                m.insert(0, [1, 2])
            elif op == 'swap' and len(m) > 1:
                a.m[0], a.m[1] = a.m[1], a.m[0]
                m[0], m[1] = m[1], m[0]
            elif op == 'oq' and os:
                i = rng.randrange(len(os))
                a.os[i].q = '12'
                os[i]['q'] = 12
            elif op == 'ol' and os:
                i = rng.randrange(len(os))
                a.os[i].l.insert(0, 'k')
                os[i]['l'].insert(0, 'k')
            elif op == 'addo':
                a.os.append({'q': '3', 'l': 'w'})
                os.append({'q': 3, 'l': ['w']})
            elif op == 'delo' and os:
                i = rng.randrange(len(os))
                del a.os[i]
                del os[i]
            elif op == 'bad':
                n = len(m), len(os)
                c.raises(lambda: a.m.append([1, -1]), 'row with a refused item', kinds=REFUSED)
                c.raises(lambda: a.os.append({'q': -1}), 'object with a refused property', kinds=REFUSED)
                c.hit('refused', 2)
            c.expect(same(a.m, m), 'array of arrays reads %r, expected %r', plain(a.m), m)
            c.expect(same(a.os, os), 'array of objects reads %r, expected %r', plain(a.os), os)
            c.hit('nested')

    @run.workload('inputs', quick=40, thorough=800)
    def _(c):
        """what an array is made of: sequences, one item, split text, positional items"""
        rng = c.rng
        t = rng.choice([KInt, KStr, KDate])(rng)
        vs = [t.typed(rng) for _ in range(rng.randint(1, 4))]
        vs = [v if v != '' else 'k' for v in vs]
        rs = [str(t.raw(rng, v)) for v in vs]
        c.sig(str(t.schema), str(rs))
        P = gen.pclass({'properties': {
            'one': {'type': 'array', 'items': dict(t.schema)},
            'cut': {'type': 'array', 'items': dict(t.schema), 'splitString': True},
            'semi': {'type': 'array', 'items': dict(t.schema), 'splitString': True, 'strDelimiter': ';'},
            'pos': {'type': 'array', 'items': [dict(t.schema), {'type': 'integer'}, {'type': 'boolean'}]}}}, gen.uid(c))
        a = P(one=rs[0], cut=rng.choice([',', ', ', ' ,']).join(rs), semi=';'.join(rs))
        c.expect(same(a.one, vs[:1]), 'array given %r reads %r, expected one item', rs[0], plain(a.one))
        c.expect(same(a.cut, vs), 'split text %r reads %r, expected %r', rs, plain(a.cut), vs)
        c.expect(same(a.semi, vs), 'text split at semicolons %r reads %r, expected %r', rs, plain(a.semi), vs)
        c.hit('split')
        a.cut = ','.join(reversed(rs))
        c.expect(same(a.cut, vs[::-1]), 'assigned split text reads %r, expected %r', plain(a.cut), vs[::-1])
        T = gen.pclass({'properties': {'cut': {'type': 'array', 'items': {'type': 'string'}, 'splitString': True}}}, gen.uid(c, 'txt'))
        ps = [rng.choice(['', '', 'a', 'b c', '0', gen.word(rng)]) for _ in range(rng.randint(2, 5))]
        got = plain(T(cut=','.join(ps)).cut)
        c.expect(got == ps, 'text of empty parts %r reads %r', ps, got)
        # sequences of other kinds are arrays too, items by items
        N = gen.pclass({'properties': {'l': {'type': 'array', 'items': {'type': 'integer'}}}}, gen.uid(c, 'num'))
        ns = [rng.randint(0, 99) for _ in range(rng.randint(0, 4))]
        for kind, given in (('tuple', tuple(ns)), ('deque', collections.deque(ns)), ('UserList', collections.UserList(ns)),
                            ('array', N(l=list(ns)).l)):
            got = plain(N(l=given).l)
            c.expect(got == ns, 'array given the %s %r reads %r', kind, ns, got)
        k = rng.randint(0, 5)
        got = plain(N(l=range(k)).l)
        c.expect(got == list(range(k)), 'array given range(%i) reads %r', k, got)
        c.hit('sequences')
        n = rng.randint(1, 3)
        row = [rs[0], '41', 'true'][:n]
        want = [vs[0], 41, True][:n]
        a.pos = row if rng.random() < .5 else tuple(row)
        c.expect(same(a.pos, want), 'positional items %r read %r, expected %r', row, plain(a.pos), want)
        if n > 1:
            c.raises(lambda: a.pos.__setitem__(1, 'text'), 'positional item of the wrong type', kinds=REFUSED)
            a.pos[1] = '7'
            c.equal(a.pos[1], 7, 'positional item')
        c.hit('positional')
        b = t.bad(rng)
        if b is not None and isinstance(b, str):
            c.raises(lambda: P(cut='%s,%s' % (rs[0], b)).cut, 'split text with the refused item %r', b, kinds=REFUSED)
            c.hit('refused')
