# -*- coding: utf-8 -*-
"""P40 - validation asked for by validate, check and do_validate answers as the schema says, at every level."""
import collections.abc
import copy
import random
import re

from harness import gen

LETTERS = ['a', 'b', 'c', 'maximum', 'pattern']  # some properties have the names of keywords


def scalar_keywords(kind, rng, p=.3):
    s = {}
    if kind in ('integer', 'number'):
        for kw in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'):
            if rng.random() < p:
                s[kw] = rng.randint(-3, 8)
        if rng.random() < p:
            s['multipleOf'] = rng.randint(1, 3) if kind == 'integer' else rng.choice([.5, 1, 2, .25])
    elif kind == 'string':
        if rng.random() < p:
            s['minLength'] = rng.randint(0, 2)
        if rng.random() < p:
            s['maxLength'] = rng.randint(1, 3)
        if rng.random() < p:
            s['pattern'] = rng.choice(['^a', 'b$', 'a', '^[ab]*$', 'a.b'])
    if rng.random() < p / 3:
        s['const'] = scalar(kind, rng)
    return s


def scalar(kind, rng):
    if kind == 'integer':
        return rng.randint(-4, 9)
    if kind == 'number':
        return rng.choice([rng.randint(-4, 9), rng.randint(-16, 36) / 4.])
    if kind == 'boolean':
        return rng.random() < .5
    return ''.join(rng.choice('ab') for _ in range(rng.randint(0, 4)))


def combine(s, rng, sub, p=.25):
    """add combinators of schemas produced by sub"""
    for kw in ('anyOf', 'oneOf', 'allOf'):
        if rng.random() < p / 2:
            s[kw] = [sub() for _ in range(rng.randint(1, 3))]
    if rng.random() < p / 2:
        s['not'] = sub()
        if not s['not']:
            del s['not']
    if rng.random() < p / 3:
        s['if'] = sub()
        s['then'] = sub()
        s['else'] = sub()
    return s


def schema(rng, depth, full=True):
    """schema of a type; without full, only the keywords which are enforced on live values too"""
    kind = rng.choice(['integer', 'string', 'number', 'boolean'] + (['object', 'array'] * 4 if depth else []))
    s = {'type': kind}
    if kind not in ('object', 'array'):
        s.update(scalar_keywords(kind, rng))
        if kind != 'boolean':
            combine(s, rng, lambda: combine(scalar_keywords(kind, rng, .4), rng, lambda: scalar_keywords(kind, rng, .4)))
            if full and rng.random() < .15:
                s['enum'] = sorted({scalar(kind, rng) for _ in range(4)})
        return s
    if kind == 'object':
        s['properties'] = {n: schema(rng, depth - 1, full) for n in rng.sample(LETTERS, rng.randint(0, 3))}
        if rng.random() < .3:
            s['additionalProperties'] = rng.choice([False, schema(rng, 0, full)])
        if rng.random() < (.5 if 'additionalProperties' in s else .2):
            s['patternProperties'] = {rng.choice(['^x', 'x$']): schema(rng, 0, full)}
        if full:
            s.update(object_keywords(rng))
            combine(s, rng, lambda: object_keywords(rng))
            if rng.random() < .2:
                s['notValidated'] = rng.sample(LETTERS, 2)
    else:
        s['items'] = schema(rng, depth - 1, full) if rng.random() < .8 else [schema(rng, depth - 1, full) for _ in range(2)]
        if full and rng.random() < .2 and isinstance(s['items'], dict) and s['items']['type'] in ('integer', 'string'):
            s['contains'] = scalar_keywords(s['items']['type'], rng, .5)
    return s


def object_keywords(rng, p=.25):
    s = {}
    if rng.random() < p:
        s['required'] = rng.sample(LETTERS, rng.randint(1, 2))
    if rng.random() < p:
        s['minProperties'] = rng.randint(1, 2)
    if rng.random() < p:
        s['maxProperties'] = rng.randint(1, 3)
    if rng.random() < p / 2:
        s['propertyNames'] = {'maxLength': 1}
    if rng.random() < p / 2:
        a, b = rng.sample(LETTERS, 2)
        s['dependencies'] = {a: [b] if rng.random() < .6 else {'required': [b]}}
    return s


def wanted(s, rng):
    """a value of the type declared, aimed at the constraints"""
    for kw in ('const', 'enum', 'minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'):
        if kw in s and rng.random() < .3:
            x = rng.choice(s[kw]) if kw == 'enum' else s[kw]
            return x + rng.choice([-1, 0, 0, 1]) if kw not in ('const', 'enum') else x
    return scalar(s['type'], rng)


def value(s, rng, depth=6):
    k = s['type']
    if k in ('array', 'object') and depth < 0:
        return [] if k == 'array' else {}
    if k == 'array':
        it = s['items']
        return [value(i, rng, depth - 1) for i in (it if isinstance(it, list) else [it] * rng.randint(0, 3))]
    if k != 'object':
        return wanted(s, rng)
    v = {n: value(p, rng, depth - 1) for n, p in s['properties'].items() if rng.random() < .75}
    pats, other = s.get('patternProperties', {}), s.get('additionalProperties')
    other = other if isinstance(other, dict) else {'type': 'integer'}
    for n in ('x', 'xx', 'yx', 'z'):
        if rng.random() < (.3 if pats and n != 'z' else .1) or (len(v) == 0 and rng.random() < .1):
            v[n] = value(next((p for r, p in pats.items() if re.search(r, n)), other), rng, depth - 1)
    return v


def own(s, v):
    """keywords of s itself which v breaks, whatever the values it contains"""
    out = set()

    def no(kw, cond):
        if kw in s and cond:
            out.add(kw)
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if num:
        no('minimum', v < s.get('minimum', 0))
        no('maximum', v > s.get('maximum', 0))
        no('exclusiveMinimum', v <= s.get('exclusiveMinimum', 0))
        no('exclusiveMaximum', v >= s.get('exclusiveMaximum', 0))
        no('multipleOf', v / s.get('multipleOf', 1) != int(v / s.get('multipleOf', 1)))
    elif isinstance(v, str):
        no('minLength', len(v) < s.get('minLength', 0))
        no('maxLength', len(v) > s.get('maxLength', 0))
        no('pattern', not re.search(s.get('pattern', ''), v))
    elif isinstance(v, list):
        no('contains', not any(valid(s.get('contains', {}), x) for x in v))
    elif isinstance(v, dict):
        no('required', any(r not in v for r in s.get('required', [])))
        no('minProperties', len(v) < s.get('minProperties', 0))
        no('maxProperties', len(v) > s.get('maxProperties', 0))
        no('propertyNames', any(not valid(s.get('propertyNames', {}), n) for n in v))
        for n, d in s.get('dependencies', {}).items():
            no('dependencies', n in v and (any(x not in v for x in d) if isinstance(d, list) else not valid(d, v)))
        if s.get('additionalProperties') is False:
            no('additionalProperties', any(n not in s.get('properties', {}) and
                                           not any(re.search(r, n) for r in s.get('patternProperties', {})) for n in v))
    no('enum', v not in s.get('enum', []))
    no('const', 'const' in s and (v != s['const'] or isinstance(v, bool) != isinstance(s['const'], bool)))
    no('anyOf', not any(valid(x, v) for x in s.get('anyOf', [])))
    no('oneOf', sum(valid(x, v) for x in s.get('oneOf', [])) != 1)
    no('allOf', not all(valid(x, v) for x in s.get('allOf', [])))
    no('not', 'not' in s and valid(s['not'], v))
    if 'if' in s:
        no('if', not valid(s['then' if valid(s['if'], v) else 'else'], v))
    return out


def valid(s, v):
    return not own(s, v)


def broken(s, v, path=''):
    """(path, keyword) broken by v and by all it contains"""
    out = {(path, kw) for kw in own(s, v)}
    if isinstance(v, list):
        it = s['items']
        for i, x in enumerate(v):
            out |= broken(it[i] if isinstance(it, list) else it, x, '%s[%i]' % (path, i))
    elif isinstance(v, dict):
        for n, x in v.items():
            if n in s.get('notValidated', ()):
                continue
            p = s['properties'].get(n)
            pats = [q for r, q in s.get('patternProperties', {}).items() if re.search(r, n)]
            rest = s.get('additionalProperties')
            for q in ([p] if p else []) + pats + ([rest] if not p and not pats and isinstance(rest, dict) else []):
                out |= broken(q, x, '%s.%s' % (path, n))
    return out


def depth_of(path):
    return path.count('.') + path.count('[')


def same_kind(s, v):
    """v has everywhere the type declared for it (what lies under several schemas can have the type of one only)"""
    k = s['type']
    if isinstance(v, dict):
        return k == 'object' and all(
            same_kind(q, x) for n, x in v.items()
            for q in ([s['properties'][n]] if n in s['properties'] else [])
            + [q for r, q in s.get('patternProperties', {}).items() if re.search(r, n)]
            + ([s['additionalProperties']] if isinstance(s.get('additionalProperties'), dict) and n not in s['properties']
               and not any(re.search(r, n) for r in s.get('patternProperties', {})) else []))
    if isinstance(v, list):
        return k == 'array' and all(same_kind(s['items'][i] if isinstance(s['items'], list) else s['items'], x)
                                    for i, x in enumerate(v))
    if isinstance(v, bool):
        return k == 'boolean'
    if isinstance(v, str):
        return k == 'string'
    return k == 'number' or k == 'integer' and isinstance(v, int)


def document(rng, u):
    """a document of types which refer to each other and to the whole, and the same types with the references replaced"""
    names = ['d%i' % i for i in range(rng.randint(1, 3))]
    refs = ['#'] * 2 + ['#/$defs/' + n for n in names]

    def ref():
        return {'$ref': rng.choice(refs) if rng.random() < .7 else u + rng.choice(refs)}

    def obj():
        props = {}
        for n in rng.sample(LETTERS, rng.randint(1, 4)):
            props[n] = rng.choice([ref, ref, lambda: schema(rng, rng.choice([0, 0, 1]), False),
                                   lambda: {'type': 'array', 'items': ref()},
                                   lambda: {'type': 'object', 'properties': {'a': ref()}}])()
        return {'type': 'object', 'properties': props}
    doc = dict(obj(), **{'$id': u, '$defs': {n: obj() if rng.random() < .6 else
                                             {'type': 'array', 'items': ref()} if rng.random() < .3 else schema(rng, 0, False)
                                             for n in names}})
    plain = copy.deepcopy(doc)

    def link(x):
        for k, y in list(x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()):
            if isinstance(y, dict) and '$ref' in y:
                f = y['$ref'].split('#')[1]
                x[k] = plain['$defs'][f.split('/')[-1]] if f else plain
            else:
                link(y)
    link(plain)
    return doc, plain


def sized(s):
    """schemas small enough to stay readable"""
    return len(str(s)) < 1500


def force(o):
    """read everything a live value contains"""
    if hasattr(o, 'do_serialize'):
        for k in (range(len(o)) if isinstance(o, collections.abc.Sequence) else list(o)):
            force(o[k])


def register(run):
    from ngoschema.exceptions import InvalidValue, ConversionError
    from ngoschema import types
    from ngoschema.loaders.schemas import load_schema
    from ngoschema.managers.type_builder import type_builder
    run.rule = ('a distinct non-trivial case is a schema with at least one constraint and a value which breaks it somewhere, '
                'or a conforming value of a nested type')
    run.require(accepted=440, broken_additionalProperties=19, broken_allOf=160, broken_anyOf=90, broken_const=70,
                broken_contains=13, broken_dependencies=15, broken_enum=100, broken_exclusiveMaximum=130,
                broken_exclusiveMinimum=120, broken_if_=80, broken_maxLength=50, broken_maxProperties=30, broken_maximum=80,
                broken_minLength=13, broken_minProperties=30, broken_minimum=90, broken_multipleOf=70, broken_not_=40,
                broken_oneOf=120, broken_pattern=50, broken_propertyNames=40, broken_required=120, check=560, depth_0=660,
                depth_1=520, depth_2=340, depth_3=70, evaluation_accepted=280, evaluation_refused=270, excluded=380,
                library_accepted=100, library_refused=250, live_validated=130, not_validated=16, references_accepted=210,
                references_refused=110, refused=670, refused_alone=440, refused_by_items_only=200)

    alone = {'required', 'additionalProperties'}  # reported before and without the others

    def pick(c, full):
        while True:
            s = schema(c.rng, c.rng.choice([0, 1, 2, 2, 3]), full)
            if sized(s):
                return s

    def outcome(f):
        try:
            return f(), None
        except InvalidValue as e:
            return None, e

    @run.workload('validate', quick=700)
    def _(c):
        rng = c.rng
        s = pick(c, True)
        T = gen.build(gen.uid(c), s)
        for _ in range(4):
            v = value(s, rng)
            if not same_kind(s, v):
                continue
            w = broken(s, v)
            c.log(s, v)
            v0 = copy.deepcopy(v)
            r, e = outcome(lambda: T.validate(v, items=True))
            c.equal(e is None, not w, 'validate %r with the items of %r, which breaks %s: %s', v, s, sorted(w)[:3], e)
            c.expect(v == v0 and repr(v) == repr(v0), '%r was modified by its validation: %r', v0, v)
            if e is None:
                c.expect(r == v0, 'validate %r gave %r', v0, r)
                c.hit('accepted')
            else:
                c.hit('refused')
                for p, kw in w:
                    c.hit('broken_' + ('not_' if kw == 'not' else 'if_' if kw == 'if' else kw))
                    c.hit('depth_%i' % depth_of(p))
            if 'notValidated' in s and set(s['notValidated']) & set(v):
                c.hit('not_validated')
            if w or s['type'] in ('object', 'array') and v:
                c.sig(str(s), str(v), bool(w))
            # the keywords of the value itself
            mine = own(s, v)
            if any(broken(q, x) for n, x in (v.items() if isinstance(v, dict) else ())
                   for r, q in s.get('patternProperties', {}).items() if re.search(r, n)):
                continue  # whether these are items or keywords is not told
            r1, e1 = outcome(lambda: T.validate(v, items=False))
            c.equal(e1 is None, not mine, 'validate %r without its items with %r: %s', v, s, e1)
            if e1 is not None:
                c.hit('refused_alone')
                for kw in (() if alone & mine else mine - {'if'}):
                    c.expect(kw in str(e1), 'the error of %r with %r does not tell about %s: %s', v, s, kw, e1)
            elif w:
                c.hit('refused_by_items_only')
            # asked again, and with keywords left out
            r2, e2 = outcome(lambda: T.validate(v, items=True))
            c.equal(str(e2), str(e), 'second validation of %r with %r', v, s)
            if mine and not alone & mine:
                left = rng.choice(sorted(mine))
                skip = [left, 'then', 'else'] if left == 'if' else [left]
                _, e3 = outcome(lambda: T.validate(v, items=False, excludes=skip))
                c.equal(e3 is None, mine == {left}, 'validation of %r with %r but for %s: %s', v, s, left, e3)
                c.hit('excluded')
            if s['type'] not in ('object', 'array'):
                c.equal(T.check(v, validate=True), not w, 'check %r with %r', v, s)
                c.hit('check')

    @run.workload('evaluation', quick=350)
    def _(c):
        rng = c.rng
        s = pick(c, False)
        T = gen.build(gen.uid(c), s)
        for _ in range(4):
            v = value(s, rng)
            if not same_kind(s, v):
                continue
            w = broken(s, v)
            c.log(s, v)
            v0 = copy.deepcopy(v)
            try:
                r = T.evaluate(v, items=True)
                force(r)
                e = None
            except (InvalidValue, ConversionError, KeyError) as er:
                e = er
            c.equal(e is None, not w, 'evaluate %r of %r, which breaks %s: %s', v, s, sorted(w)[:3], e)
            c.expect(v == v0 and repr(v) == repr(v0), '%r was modified by its evaluation: %r', v0, v)
            if e is not None:
                c.hit('evaluation_refused')
                c.sig(str(s), str(v), True)
                continue
            c.hit('evaluation_accepted')
            if hasattr(r, 'do_validate'):
                r.do_validate(items=True)
                c.hit('live_validated')
                c.sig(str(s), str(v), False)

    @run.workload('references', quick=150)
    def _(c):
        rng = c.rng
        u = 'http://p40.verif/%s/%i' % (c.rng.randint(0, 10 ** 9), c.index)
        doc, plain = document(rng, u)
        load_schema(copy.deepcopy(doc))
        T = type_builder.load(u + rng.choice(['', '', '#']))
        types_ = [(T, plain)] + [(type_builder.load('%s#/$defs/%s' % (u, n)), d) for n, d in plain['$defs'].items()]
        for _ in range(6):
            t, s = rng.choice(types_)
            v = value(s, rng, rng.choice([2, 3, 4]))
            if len(str(v)) > 400 or not same_kind(s, v):
                continue
            w = broken(s, v)
            c.log(doc, v)
            _, e = outcome(lambda: t.validate(v, items=True))
            c.equal(e is None, not w, 'validate %r with the items of %s in %r, which breaks %s: %s', v, t, doc, sorted(w)[:3], e)
            try:
                r = t.evaluate(copy.deepcopy(v), items=True)
                force(r)
                e = None
            except (InvalidValue, ConversionError, KeyError) as er:
                e = er
            c.equal(e is None, not w, 'evaluate %r of %s in %r, which breaks %s: %s', v, t, doc, sorted(w)[:3], e)
            c.hit('references_refused' if w else 'references_accepted')
            c.sig(str(doc), str(v))

    @run.workload('library types', quick=150)
    def _(c):
        rng = c.rng
        kind = rng.choice(['integer', 'string', 'number'])
        s = dict(scalar_keywords(kind, rng, .5), type=kind)
        cls = {'integer': types.Integer, 'string': types.String, 'number': types.Number}[kind]
        kws = {k: x for k, x in s.items() if k != 'type'}
        t = cls(**kws)
        a = types.Array(items=dict(s))
        for _ in range(6):
            v = wanted(s, rng)
            w = own(s, v)
            c.log(s, v)
            _, e = outcome(lambda: t._validate(t, v))
            c.equal(e is None, not w, '%s(%r) validates %r: %s', cls.__name__, kws, v, e)
            try:
                t(v)
                ok = True
            except (InvalidValue, ConversionError):
                ok = False
            c.equal(ok, not w, '%s(%r) evaluates %r', cls.__name__, kws, v)
            vs = [wanted(s, rng) for _ in range(rng.randint(0, 3))] + [v]
            wa = any(own(s, x) for x in vs)
            try:
                a(list(vs))
                ok = True
            except (InvalidValue, ConversionError):
                ok = False
            c.equal(ok, not wa, 'an array of %r evaluates %r', s, vs)
            c.hit('library_refused' if w else 'library_accepted')
            if w:
                c.sig(str(s), v)
