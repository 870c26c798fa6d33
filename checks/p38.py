# -*- coding: utf-8 -*-
"""P38 - the checks of types agree with what converting and evaluating the same value does."""
import collections
import datetime
import decimal
import pathlib
from urllib.parse import urlparse

from harness import gen


def pool(rng):
    import arrow

    class Odd(object):
        def __repr__(self):
            return 'odd'
    d = datetime.date(rng.randint(1, 9998), rng.randint(1, 12), rng.randint(1, 28))
    t = datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 120000]))
    dt = datetime.datetime.combine(d, t)
    n = rng.choice([0, 1, 2, 3, 5, -1, 7, 10 ** 20, rng.randint(-50, 50)])
    f = rng.choice([0., 1., 1.5, -2.25, float('nan'), float('inf'), 1e300, rng.randint(-40, 40) / 4.])
    w = rng.choice(['', 'a', 'b', 'ab', 'abc', ' a ', 'true', 'FALSE', 'yes', 'no', '1', '-3', '1.5', '1e3', ' 4 ', 'x/y', '/tmp',
                    '~', 'http://a.org/b?c#d', 'os.path', 'json.dumps', 'os.nothing', 'now', 'today', '12:30', '25:00',
                    '2020-02-30', '\u00e9', 'a,b', '1,2', 'None', 'null', '0x10', '[1]', '{}', 'a b', d.isoformat(), t.isoformat(),
                    dt.isoformat(), d.strftime('%d/%m/%Y'), str(n), str(f), gen.word(rng)])
    leaf = rng.choice([n, n, f, w, w, w, decimal.Decimal(str(rng.choice([0, 1, '2.5', '-3', '1E+3', 'NaN']))), True, False, d, t, dt,
                       arrow.get(dt), pathlib.Path(w), urlparse('http://a.org/' + gen.word(rng)), w.encode('utf-8'),
                       datetime.timedelta(3), int, Odd(), (), len])
    r = rng.random()
    if r < .7:
        return leaf
    if r < .85:
        return rng.choice([list, tuple])(pool(rng) for _ in range(rng.randint(0, 3)))
    return rng.choice([dict, collections.OrderedDict])([(k, pool(rng)) for k in rng.sample(['a', 'b', 'c', 'z'], rng.randint(0, 2))])


def describe(rng, depth=1):
    """a schema of each type with or without constraints"""
    k = rng.choice(['integer', 'number', 'boolean', 'string', 'date', 'time', 'datetime', 'path', 'uri', 'importable', 'enum']
                   + ['array', 'object'] * depth)
    s = {'type': k}
    if k in ('integer', 'number') and rng.random() < .6:
        s[rng.choice(['minimum', 'maximum', 'exclusiveMinimum', 'multipleOf'])] = rng.randint(1, 3)
    elif k == 'string' and rng.random() < .6:
        s.update(rng.choice([{'minLength': 2}, {'maxLength': 2}, {'pattern': '^a'}]))
    elif k == 'enum':
        s = rng.choice([{'type': 'string', 'enum': ['a', 'b', '3']}, {'type': 'integer', 'enum': [3, 5, 1]}])
    elif k == 'array':
        s['items'] = describe(rng, 0)
    elif k == 'object':
        s['properties'] = {n: describe(rng, 0) for n in rng.sample(['a', 'b'], rng.randint(0, 2))}
        if rng.random() < .3:
            s['additionalProperties'] = False
        if s['properties'] and rng.random() < .4:
            s['aliases'] = {rng.choice(['c', 'z']): rng.choice(sorted(s['properties']))}
        if s['properties'] and rng.random() < .3:
            s['notValidated'] = [rng.choice(sorted(s['properties']))]
    if k in ('array', 'object') and rng.random() < .3:
        s['lazyLoading'] = True
    return s


def has_none(v):
    return v is None or isinstance(v, (list, tuple)) and any(map(has_none, v)) \
        or isinstance(v, dict) and any(map(has_none, v.values()))


def interpreted(v):
    """if a text somewhere in v is a literal"""
    if isinstance(v, str):
        return v.startswith('`') or '{{' in v
    return any(map(interpreted, v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else ()))


def register(run):
    run.rule = 'a distinct non-trivial case is a type with a value which it does not take as it is'
    run.require(collection_evaluated=1, collection_refused=2, converted=7, evaluated=7, not_evaluated=8, refused=8)

    def attempt(f):
        try:
            return True, f()
        except Exception as e:
            return False, e

    @run.workload('agreement', quick=1200)
    def _(c):
        rng = c.rng
        s = describe(rng)
        k = 'enum' if 'enum' in s else s['type']
        t = gen.build(gen.uid(c), s)
        flat = k not in ('array', 'object')
        for _ in range(8):
            v = pool(rng)
            c.log(s, v)
            before = repr(v)
            as_is, checked, judged = t.check(v), t.check(v, convert=True), t.check(v, convert=True, validate=True)
            for r in (as_is, checked, judged):
                c.expect(r is True or r is False, 'check of %r by %r gives %r', v, s, r)
            c.expect(repr(v) == before, 'checking %s with %r changes it to %r', before, s, v)
            if not flat:
                ok, got = attempt(lambda: t.evaluate(v))
                if ok:
                    c.expect('lazyLoading' in s or t.check(got), 'the evaluation of %r by %r, %r, does not pass its check', v, s, got)
                    c.hit('collection_evaluated')
                    again, same = attempt(lambda: t.evaluate(got))
                    c.expect(again and same is got, 'the evaluation of %r by %r is not left as it is', v, s)
                else:
                    c.hit('collection_refused')
                c.sig(str(s), str(v), ok)
                continue
            ok, got = attempt(lambda: t.convert(v))
            c.equal(checked, ok, 'check with conversion of %r by %r, conversion gives %r', v, s, got)
            good, value = attempt(lambda: t.evaluate(v))
            c.equal(judged, good, 'check with conversion and validation of %r by %r, evaluation gives %r', v, s, value)
            c.expect(ok or not good, '%r is evaluated by %r as %r but not converted', v, s, value)
            for what, done, x in (('conversion', ok, got), ('evaluation', good, value)):
                if done:
                    c.expect(t.check(x), 'the %s of %r by %r, %r, does not pass its check', what, v, s, x)
                    again, y = attempt(lambda: t.convert(x))
                    c.expect(again and type(y) is type(x) and (y == x or x != x), 'the %s of %r by %r, %r, is converted to %r',
                             what, v, s, x, y)
            c.hit('converted' if ok else 'refused')
            c.hit('evaluated' if good else 'not_evaluated')
            if as_is and k in ('integer', 'boolean', 'string', 'path', 'uri'):
                c.expect(ok and type(got) is type(v) and got == v, '%r passes the check of %r, its conversion is %r', v, s, got)
                c.hit('taken_as_is')
            if not as_is or not good:
                c.sig(str(s), str(v), ok, good)
