# -*- coding: utf-8 -*-
"""Random object classes with a reference model of what their properties must read.

A kind of property yields a schema, raw values with the typed value they must become, and raw values to refuse.
"""
import datetime
from collections.abc import Mapping, Sequence
from decimal import Decimal

from harness import gen


class Unset:
    def __repr__(self):
        return '<unset>'


UNSET = Unset()


def plain(v):
    """collections as plain Python values, scalars unchanged"""
    if isinstance(v, Mapping):
        return {k: plain(v[k]) for k in v}
    if isinstance(v, Sequence) and not isinstance(v, (str, bytes, tuple)) or type(v).__name__.endswith('List'):
        return [plain(x) for x in v]
    return v


class Kind:
    name = None
    primitive = True
    unset = None        # what an unset property without default reads

    def __init__(self, rng):
        self.schema = {}

    def raw(self, rng, v):
        return v


class KInt(Kind):
    name = 'integer'

    def __init__(self, rng):
        self.schema = {'type': 'integer'}
        self.lo, self.hi = -50, 50
        if rng.random() < .4:
            self.lo = self.schema['minimum'] = rng.randint(-20, 0)
        if rng.random() < .4:
            self.hi = self.schema['maximum'] = rng.randint(5, 40)

    def typed(self, rng):
        return rng.randint(self.lo, self.hi)

    def raw(self, rng, v):
        return v if rng.random() < .6 else str(v)

    def bad(self, rng):
        out = ['nope', '1x', [], {}]
        if 'minimum' in self.schema:
            out += [self.lo - 1, str(self.lo - 3), self.lo - 1]
        if 'maximum' in self.schema:
            out += [self.hi + 1, self.hi + 10]
        return rng.choice(out)


class KNum(Kind):
    name = 'number'

    def __init__(self, rng):
        self.schema = {'type': 'number'}
        self.hi = 10 ** 6
        if rng.random() < .4:
            self.hi = self.schema['maximum'] = rng.randint(5, 40)

    def typed(self, rng):
        return min(gen.decimal(rng), Decimal(self.hi))

    def raw(self, rng, v):
        return v if rng.random() < .5 else str(v)

    def bad(self, rng):
        return rng.choice(['nope', '1,5', {}] + ([self.hi + 1, Decimal(self.hi) + Decimal('0.5')] if 'maximum' in self.schema else []))


class KStr(Kind):
    name = 'string'

    def __init__(self, rng):
        self.schema = {'type': 'string'}
        self.n = 10
        if rng.random() < .4:
            self.n = self.schema['maxLength'] = rng.randint(2, 8)

    def typed(self, rng):
        return '' if rng.random() < .08 else gen.word(rng, self.n)

    def bad(self, rng):
        if 'maxLength' in self.schema:
            return 'z' * (self.n + rng.randint(1, 3))


class KBool(Kind):
    name = 'boolean'

    def __init__(self, rng):
        self.schema = {'type': 'boolean'}

    def typed(self, rng):
        return rng.random() < .5

    def raw(self, rng, v):
        return rng.choice([v, str(v), str(v).lower(), int(v)])

    def bad(self, rng):
        return rng.choice(['maybe', 'yes', 7, 'tru'])


class KDate(Kind):
    name = 'date'

    def __init__(self, rng):
        self.schema = {'type': 'date'}

    def typed(self, rng):
        return datetime.date(rng.randint(1950, 2049), rng.randint(1, 12), rng.randint(1, 28))

    def raw(self, rng, v):
        return v if rng.random() < .4 else v.isoformat()

    def bad(self, rng):
        return rng.choice(['2020-13-01', 'someday', '2021-02-30'])


class KEnum(Kind):
    name = 'enum'

    def __init__(self, rng):
        self.mem = ['red', 'green', 'blue', 'grey'][:rng.randint(2, 4)]
        self.schema = {'enum': list(self.mem)}
        self.unset = self.mem[0]

    def typed(self, rng):
        return rng.choice(self.mem)

    def bad(self, rng):
        return rng.choice(['pink', 9, -1])


class KArr(Kind):
    name = 'array'
    primitive = False
    unset = []

    def __init__(self, rng):
        self.item = rng.choice([KInt, KStr])(rng)
        self.schema = {'type': 'array', 'items': dict(self.item.schema)}

    def typed(self, rng):
        return [self.item.typed(rng) for _ in range(rng.randint(0, 4))]

    def raw(self, rng, v):
        return [self.item.raw(rng, x) for x in v]

    def bad(self, rng):
        b = self.item.bad(rng)
        if b is None or isinstance(b, (list, dict)):
            return None
        return [self.item.typed(rng), b]


class KObj(Kind):
    name = 'object'
    primitive = False

    def __init__(self, rng):
        self.q, self.r = KStr(rng), KInt(rng)
        self.schema = {'type': 'object', 'properties': {'q': dict(self.q.schema), 'r': dict(self.r.schema)}}

    def typed(self, rng):
        return {'q': self.q.typed(rng), 'r': self.r.typed(rng)}

    def raw(self, rng, v):
        return {'q': self.q.raw(rng, v['q']), 'r': self.r.raw(rng, v['r'])}

    def bad(self, rng):
        b = self.r.bad(rng)
        return {'q': self.q.typed(rng), 'r': b if not isinstance(b, (list, dict)) else 'nope'}


KINDS = [KInt, KInt, KNum, KStr, KStr, KBool, KDate, KEnum, KArr, KObj]
SCALARS = [KInt, KInt, KNum, KStr, KStr, KBool, KDate, KEnum]

RAW_NAMES = ['width', 'height', 'label', 'unit-price', 'full name', 'kind', 'when', 'x1', 'Total', 'flag', 'a-b', 'n o p',
             'z', 'size2', 'owner', '@id', 'par/t']


class Spec:
    """a random class definition"""

    def __init__(self, c, rng, n=(3, 8), kinds=KINDS, defaults=.35, aliases=True, required=.2, readonly=0., additional=None,
                 lazy=None):
        self.c = c
        names = rng.sample(RAW_NAMES, rng.randint(*n))
        self.kinds = {k: rng.choice(kinds)(rng) for k in names}
        self.default = {}
        self.required = set()
        self.readonly = set()
        for k, t in self.kinds.items():
            if rng.random() < defaults and t.name != 'object':
                d = t.typed(rng)
                if t.name == 'array' and not d:
                    continue
                self.default[k] = d
            elif rng.random() < required:
                self.required.add(k)
            if rng.random() < readonly:
                self.readonly.add(k)
        self.aliases, self.negated = {}, {}
        if aliases:
            for i, k in enumerate(names):
                if rng.random() < .3:
                    self.aliases['al%i' % i] = k
                if self.kinds[k].name in ('integer', 'number') and rng.random() < .5:
                    self.negated['neg%i' % i] = k
        self.additional = additional
        self.lazy = lazy

    def trans(self, name):
        """the attribute name of a property: what follows the last colon, without the characters that are neither
        letters, digits nor underscores, and dashes as underscores"""
        return ''.join('_' if x == '-' else x for x in name.split(':')[-1] if x.isalnum() or x in '-_')

    def schema(self, rng):
        props = {}
        for k, t in self.kinds.items():
            props[k] = s = dict(t.schema)
            if k in self.default:
                d = self.default[k]
                s['default'] = d.isoformat() if t.name == 'date' else d
        s = {'properties': props}
        if self.required:
            s['required'] = sorted(self.required)
        if self.readonly:
            s['readOnly'] = sorted(self.readonly)
        if self.aliases:
            s['aliases'] = dict(self.aliases)
        if self.negated:
            s['negatedAliases'] = dict(self.negated)
        if self.additional is not None:
            s['additionalProperties'] = self.additional
        if self.lazy is not None:
            s['lazyLoading'] = self.lazy
        return s

    def build(self, rng, name='Sub', bases=(), **attrs):
        self.cls = gen.pclass(self.schema(rng), gen.uid(self.c), name=name, bases=bases, **attrs)
        return self.cls

    def unset(self, k):
        """what a property that was never given reads"""
        if k in self.default:
            return self.default[k]
        return self.kinds[k].unset

    def initial(self, rng, p=.6):
        """-> (raw keyword data, expected typed values of every property)"""
        raw, want = {}, {}
        for k, t in self.kinds.items():
            if k in self.required or rng.random() < p:
                v = t.typed(rng)
                want[k] = v
                raw[k] = t.raw(rng, v)
            else:
                want[k] = self.unset(k)
        items = list(raw.items())
        rng.shuffle(items)
        return dict(items), want

    def names(self, k):
        """every name of a property -> negated?"""
        out = {k: False, self.trans(k): False}
        out.update({a: False for a, r in self.aliases.items() if r == k})
        out.update({a: True for a, r in self.negated.items() if r == k})
        return out


def same(got, want):
    got = plain(got)
    if type(got) is not type(want) and not (isinstance(got, str) and isinstance(want, str)):
        return False
    if isinstance(want, dict):
        return set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want
