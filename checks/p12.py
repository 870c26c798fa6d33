# -*- coding: utf-8 -*-
"""P12 - serialization: plain data from which an equal object is built."""
import datetime
import pathlib
from decimal import Decimal
from urllib.parse import urlparse

from harness import gen
from harness.objmodel import Spec, KINDS, Kind, same, plain

PLAIN = (str, bool, int, Decimal, type(None))


class KTime(Kind):
    name = 'time'

    def __init__(self, rng):
        self.schema = {'type': 'time'}

    def typed(self, rng):
        return datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))

    def raw(self, rng, v):
        return v if rng.random() < .5 else v.isoformat()


class KDatetime(Kind):
    name = 'datetime'

    def __init__(self, rng):
        self.schema = {'type': 'datetime'}

    def typed(self, rng):
        import arrow
        tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 0, 60, -300, 330])))
        us = rng.choice([0, 0, rng.randint(1, 999) * 1000, rng.randint(1, 999999)])
        return arrow.get(datetime.datetime(rng.randint(1950, 2049), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                           rng.randint(0, 59), rng.randint(0, 59), us, tz))

    def raw(self, rng, v):
        return v if rng.random() < .4 else v.isoformat()


class KUri(Kind):
    name = 'uri'

    def __init__(self, rng):
        self.schema = {'type': 'uri'}

    def typed(self, rng):
        return urlparse('http://%s.test/%s?k=%s#%s' % (gen.word(rng), gen.word(rng), gen.word(rng), gen.word(rng)))

    def raw(self, rng, v):
        return v if rng.random() < .3 else v.geturl()


class KPath(Kind):
    name = 'path'

    def __init__(self, rng):
        self.schema = {'type': 'path'}

    def typed(self, rng):
        return pathlib.Path('/' + '/'.join(gen.word(rng) for _ in range(rng.randint(1, 3))))

    def raw(self, rng, v):
        return v if rng.random() < .5 else str(v)


def register(run):
    run.rule = 'a distinct non-trivial case is a (class, contents, serialization options)'
    run.assumptions = ['times are naive', 'names of nested properties differ from those given in only and excludes',
                       'properties and aliases given together agree']
    run.require(roundtrip=60, selected=100, independent=60, literal=60, marked=15, nested_hidden=15, copied=60)
    ALL = KINDS + [KTime, KDatetime, KUri, KPath]

    def is_plain(c, v, where='the serialization'):
        if isinstance(v, dict):
            for k, x in v.items():
                c.expect(type(k) is str, '%s has the key %r', where, k)
                is_plain(c, x, where + '.' + k)
        elif type(v) is list:
            for i, x in enumerate(v):
                is_plain(c, x, '%s[%i]' % (where, i))
        else:
            c.expect(type(v) in PLAIN, '%s is %r, of type %s', where, v, type(v).__name__)

    @run.workload('roundtrip', quick=100, thorough=2500)
    def _(c):
        rng = c.rng
        spec = Spec(c, rng, kinds=ALL, lazy=rng.choice([None, None, True, False]), readonly=.15)
        for k, d in list(spec.default.items()):
            if spec.kinds[k].name in ('time', 'datetime', 'uri', 'path'):
                del spec.default[k]
        A = spec.build(rng)
        raw, want = spec.initial(rng, .7)
        extras = {}
        if rng.random() < .4:
            extras = {'more': rng.choice(['txt', 3, [1, 'b'], {'k': {'l': [1]}}])}
        c.sig(str(sorted(spec.kinds)), str(raw), str(extras))
        c.log('construct', raw, extras)
        a = A(dict(raw, **extras))
        settable = [k for k in spec.kinds if k not in spec.readonly]
        for _i in range(rng.randint(0, 3)):
            if settable:
                k = rng.choice(settable)
                want[k] = spec.kinds[k].typed(rng)
                a[k] = spec.kinds[k].raw(rng, want[k])
                c.log('set', k, want[k])
        if rng.random() < .5:
            plain(a)
        opts = {}
        if rng.random() < .3:
            opts['no_defaults'] = False
        s = a.do_serialize(**opts)
        is_plain(c, s)
        c.equal(plain(a.do_serialize(**opts)), plain(s), 'serialized again')
        for how, f in (('the constructor', lambda d: A(d)), ('create', lambda d: A.create(d)), ('keywords', lambda d: A(**d))):
            d = {k: v for k, v in s.items()}
            if opts:
                # an unset property and its name given as None are not told apart
                d = {k: v for k, v in d.items() if v is not None and want.get(spec.aliases.get(k, spec.negated.get(k, k)), 1) is not None}
            b = f(d)
            for k, w in want.items():
                c.expect(same(b[k], w), 'property %s of type %s is %r once read from %r by %s, it was %r', k, spec.kinds[k].schema, plain(b[k]), s, how, w)
            for k, w in extras.items():
                c.equal(plain(b[k]), w, 'additional property %s once read back', k)
            c.expect(a == b and b == a, 'the object read from %r by %s is not equal to the original', s, how)
        c.hit('roundtrip')
        # neither the object nor the result depend on each other
        before = plain(a.do_serialize())
        for k, v in s.items():
            if isinstance(v, list):
                v.append('extra')
            elif isinstance(v, dict):
                v['added'] = 1
        for k, w in dict(want, **{k: v for k, v in extras.items() if not isinstance(v, (list, dict))}).items():
            c.expect(same(a[k], w), 'property %s is %r after the serialization was changed, it was %r', k, plain(a[k]), w)
        if not any(isinstance(v, (list, dict)) for v in extras.values()):
            c.equal(plain(a.do_serialize()), before, 'serialization after an earlier one was changed')
        c.hit('independent')
        # selections
        s = a.do_serialize(no_defaults=False)
        names = sorted(set(s))
        only = rng.sample(names, rng.randint(1, len(names)))
        got = a.do_serialize(only=list(only), no_defaults=False)
        c.expect(set(only) - set(spec.aliases) - set(spec.negated) <= set(got), 'only %r gives %r', only, list(got))
        c.expect(set(got) <= set(only), 'only %r gives %r', only, list(got))
        for k in got:
            c.equal(plain(got[k]), plain(s[k]), 'property %s of a selection', k)
        out = rng.sample(names, rng.randint(1, len(names)))
        got = a.do_serialize(excludes=list(out), no_defaults=False)
        kept = set(names) - set(out)
        # an alias goes with the property it stands for
        gone_with = {al for al, k in list(spec.aliases.items()) + list(spec.negated.items()) if k in out}
        c.expect(kept - gone_with <= set(got) and not set(got) & set(out), 'without %r gives %r of %r', out, list(got), names)
        for k in got:
            c.equal(plain(got[k]), plain(s[k]), 'property %s of a serialization without others', k)
        c.hit('selected', 2)
        # copies
        b = a.copy()
        c.expect(b == a and type(b) is type(a), 'a copy is not equal to the original')
        for k in settable:
            t = spec.kinds[k]
            v = t.typed(rng)
            b[k] = t.raw(rng, v)
            c.expect(same(b[k], v) and same(a[k], want[k]), 'assigning %s of a copy: it reads %r, the original %r', k, plain(b[k]), plain(a[k]))
        c.hit('copied')

    @run.workload('literals', quick=40, thorough=800)
    def _(c):
        """expressions and templates are serialized as their values"""
        rng = c.rng
        A = gen.pclass({'properties': {'n': {'type': 'integer'}, 'e': {'type': 'integer'}, 't': {'type': 'string'},
                                       'raw': {'type': 'string', 'rawLiterals': True}}}, gen.uid(c))
        n = rng.randint(0, 50)
        a = A(n=n, e='`n*2', t='{{n}}/{{e}}', raw='{{n}}')
        if rng.random() < .5:
            a.e
        c.sig(n)
        for _i in range(3):
            c.equal(plain(a.do_serialize()), {'n': n, 'e': n * 2, 't': '%i/%i' % (n, n * 2), 'raw': '{{n}}'}, 'serialization of literals')
            n = rng.randint(0, 50)
            a.n = n
            c.equal((a.e, a.t, a.raw), (n * 2, '%i/%i' % (n, n * 2), '{{n}}'), 'literals read after a serialization')
            c.hit('literal')
        b = a.copy()
        b.n = n + 1
        c.equal((b.e, b.t, a.e), (n * 2 + 2, '%i/%i' % (n + 1, n * 2 + 2), n * 2), 'literals of a copy')

    @run.workload('subclasses', quick=30, thorough=500)
    def _(c):
        """values of a subclass are marked with their schema and read back as such"""
        rng = c.rng
        frag = rng.choice(['', '#/$defs/'])
        bid, sid = gen.uid(c, frag + 'Base'), gen.uid(c, frag + 'Special')
        if rng.random() < .3:
            # of the same name, in another document
            sid = gen.uid(c, 'other' + (frag or '/') + 'Base')
        B = gen.pclass({'type': 'object', 'properties': {'q': {'type': 'integer'}}}, bid, 'Base')
        P = B
        for i in range(rng.randint(0, 2)):
            P = gen.pclass({'type': 'object', 'properties': {'x%i' % i: {'type': 'integer'}}}, gen.uid(c, 'Middle%i' % i), 'Middle%i' % i, bases=(P,))
        S = gen.pclass({'type': 'object', 'properties': {'r': {'type': 'integer'}}}, sid, 'Special', bases=(P,))
        H = gen.pclass({'properties': {'o': {'$ref': bid}, 'os': {'type': 'array', 'items': {'$ref': bid}}}}, gen.uid(c, 'H'), 'H')
        q, r = rng.randint(0, 9), rng.randint(0, 9)
        mix = [rng.random() < .5 for _ in range(rng.randint(1, 4))]
        top = rng.random() < .6
        c.sig(q, r, top, str(mix))

        def make(special, i=0):
            return S(q=q + i, r=r + i) if special else B(q=q + i)
        h = H(o=make(top), os=[make(x, i) for i, x in enumerate(mix)])
        s = h.do_serialize()
        is_plain(c, s)
        c.equal(s['o'].get('$schema'), sid if top else None, 'mark of a %s', 'subclass' if top else 'declared class')
        k = H(s)
        plain(k)
        c.equal(s, h.do_serialize(), 'the data read from, once read')
        if rng.random() < .5:
            k = H(**s)
        for got, special, i in [(k.o, top, 0)] + [(k.os[i], x, i) for i, x in enumerate(mix)]:
            c.expect(type(got) is (S if special else B), 'an object of class %s is read back as %s', S if special else B, type(got))
            c.equal({k: v for k, v in plain(got).items() if v is not None}, {'q': q + i, 'r': r + i} if special else {'q': q + i}, 'contents of an object of a subclass')
        c.expect(h == k, 'the object read back is not equal')
        c.hit('marked')

    @run.workload('hidden', quick=30, thorough=400)
    def _(c):
        """what a class keeps out of its serialization does not concern the objects it holds"""
        rng = c.rng
        ks = ['a', 'b', 'd']
        own = rng.sample(ks, rng.randint(1, 2))
        inner = rng.sample(ks, rng.randint(0, 2))
        props = {k: {'type': 'integer'} for k in ks}
        o = {'type': 'object', 'properties': props}
        if inner:
            o['notSerialized'] = inner
        A = gen.pclass({'properties': dict(props, o=o, os={'type': 'array', 'items': o}), 'notSerialized': own}, gen.uid(c))
        v = {k: rng.randint(1, 99) for k in ks}
        n = rng.randint(1, 3)
        a = A(dict(v, o=dict(v), os=[dict(v) for _ in range(n)]))
        c.sig(str(own), str(inner), n)
        shown = {k: v[k] for k in ks if k not in own}
        inside = {k: v[k] for k in ks if k not in inner}
        c.equal(plain(a.do_serialize()), dict(shown, o=inside, os=[inside] * n), 'serialization with %r kept out, %r of the nested objects', own, inner)
        c.hit('nested_hidden')
