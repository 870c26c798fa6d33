# -*- coding: utf-8 -*-
"""P33 - string utilities: replacing, splitting, shortening, formatting for the logs."""
import collections
import re
from pathlib import Path

from harness import gen

SPECIAL = '.^$*+?{}[]\\|()-/#&~ \t,;:=!<>@%"\'\u00e9\u20ac\U0001f600'


def register(run):
    from ngoschema.utils import str_utils
    from ngoschema.utils.str_utils import (multiple_replace, split_string, rreplace, shorten, inline, lazy_format, log_format,
                                           get_unicode, file_link_format)
    from ngoschema import settings
    run.rule = 'a distinct non-trivial case is a text with the keys, delimiters or arguments applied to it'
    run.assumptions = ['no replaced key is empty or the beginning of another one']
    run.require(replaced=1500, special=500, swaps=200, splits=1500, arrays=150, rreplaced=500, shortened=500, lazy=700,
                lazy_again=700, formatted=800, long=50, unicode=300)

    def text(rng, extra='', n=30):
        pool = 'abcAB1' + SPECIAL + extra * 8
        return ''.join(rng.choice(pool) for _ in range(rng.randint(0, n)))

    @run.workload('replace', quick=1200, thorough=40000)
    def _(c):
        rng = c.rng
        keys = []
        for _ in range(rng.randint(0, 6)):
            k = rng.choice(list('abcAB1' + SPECIAL) + ['ab', 'bA', '\\d', 'a.', '[a]', 'a|b', '$1', 'a\nb', '(?:x)', '\\1'])
            if not any(x.startswith(k) or k.startswith(x) for x in keys):
                keys.append(k)
        vals = {k: rng.choice(keys + ['', 'R', '\\1', '\\g<0>', 'long text', '$&']) for k in keys}
        s = ''.join(rng.choice(keys + ['a', 'b', 'Z', ' ', '\n', '.', '\u00e9']) for _ in range(rng.randint(0, 20)))
        c.sig(s, sorted(vals.items()))
        out, i = [], 0
        while i < len(s):
            k = next((k for k in keys if s.startswith(k, i)), None)
            if k is None:
                out.append(s[i])
                i += 1
            else:
                out.append(vals[k])
                i += len(k)
                c.hit('replaced')
                c.hit('special', not k.isalnum())
                c.hit('swaps', vals[k] in keys)
        b = dict(vals)
        c.equal(multiple_replace(s, vals), ''.join(out), 'replacing %r in %r', vals, s)
        c.expect(vals == b, 'the replacements have been modified')
        old, new, n = rng.choice(keys + ['a', 'ab']), rng.choice(['', 'X', 'aa']), rng.randint(1, 3)
        # from the right, without regular expressions
        rest, tail = s, []
        for _ in range(n):
            p = rest.rfind(old)
            if p < 0:
                break
            tail.insert(0, rest[p + len(old):])
            rest = rest[:p]
        want = new.join([rest] + tail)
        c.equal(rreplace(s, old, new, n), want, 'replacing %r from the right', old)
        if n == 1:
            c.equal(rreplace(s, old, new), want, 'replacing the last %r', old)
        c.hit('rreplaced')

    @run.workload('split', quick=1200, thorough=40000)
    def _(c):
        rng = c.rng
        dels = ''.join(rng.sample(SPECIAL + 'aZ', rng.randint(0, 5)))
        strip = rng.random() < .5

        def split(s, dels, strip):
            parts = ['']
            for ch in s:
                if ch in dels:
                    parts.append('')
                else:
                    parts[-1] += ch
            return [p.strip() for p in parts] if strip and dels else parts
        ss = [text(rng, dels) for _ in range(rng.randint(1, 3))]
        c.sig(ss, dels, strip)
        for s in ss:
            c.equal(split_string(s, dels, strip), split(s, dels, strip), 'splitting %r on %r', s, dels)
            c.equal(split_string(s, delimiters=dels, strip=strip), split(s, dels, strip), 'splitting %r on %r', s, dels)
            c.equal(split_string(s), split(s, ' ', True), 'splitting %r on spaces', s)
            c.hit('splits')
            c.hit('unicode', any(ord(x) > 127 for x in s))
            n = rng.randint(0, 30)
            for sh, n in ((shorten(s, n), n), (shorten(s), settings.PPRINT_MAX_STRL)):
                c.equal(sh, s if len(s) <= n else s[:n] + '...', 'shortened to %i', n)
            c.equal(shorten(s, n, str_fun=repr), repr(s) if len(repr(s)) <= n else repr(s)[:n] + '...', 'representation shortened')
            c.hit('shortened')
            t = s.replace('a', '\n')
            c.equal(inline(t), t.replace('\n', '\\n'), 'inlined')
            c.expect('\n' not in inline(t), 'several lines')
            c.equal(get_unicode(s), s, 'text')
            c.equal(get_unicode(s.encode('utf-8')), s, 'text from utf-8')
            c.equal(get_unicode(s.encode('utf-16'), 'utf-16'), s, 'text from utf-16')
            b = bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 6)))
            b = rng.choice([b, b'\xef\xbb\xbf' + b, b'\xff\xfe' + b])
            c.equal(get_unicode(b, 'latin-1'), ''.join(map(chr, b)), 'text from latin-1')
        if rng.random() < .4:
            seq = rng.choice([list, tuple])(ss)
            c.equal(split_string(seq, dels, strip), [split(s, dels, strip) for s in ss], 'splitting several texts')
            c.hit('arrays')

    @run.workload('format', quick=1200, thorough=20000)
    def _(c):
        rng = c.rng
        me, ms = settings.PPRINT_MAX_EL, settings.PPRINT_MAX_STRL

        def scalar():
            k = rng.random()
            if k < .3:
                return rng.choice([None, True, 0, 2.5, -7, b'ab'])
            if k < .5:
                return 'z' * rng.randint(ms - 3, ms + 40)
            return gen.text(rng)

        def value(depth=0):
            k = rng.random()
            n = rng.choice([0, 1, 2, 3, me - 1, me, me + 1, me + 7])
            if depth >= 3 or k < .25:
                return scalar()
            if k < .5:
                return {'k%03i' % i: value(depth + 1) for i in range(n)}
            if k < .75:
                return [value(depth + 1) for _ in range(n)]
            if k < .85:
                return tuple(value(depth + 1) for _ in range(n))
            if k < .9:
                return collections.deque(value(3) for _ in range(n))
            if k < .95:
                return collections.OrderedDict(('k%03i' % i, value(depth + 1)) for i in range(n))
            return set(range(n))
        v = value()
        if rng.random() < .25:
            n = rng.choice([0, 1, me - 1, me, me + 1, me + 7, 3 * me])
            v = rng.choice([list, tuple, lambda x: {i: 'v' for i in x}, lambda x: [[i] for i in x], lambda x: {i: {} for i in x},
                            lambda x: [{'a': i} for i in x]])(range(n))
        before = repr(v)
        c.sig(before)
        r = log_format(v)
        c.expect(isinstance(r, str) and r, 'formatted as %r', r)
        c.equal(log_format(v), r, 'formatted again')
        c.expect(repr(v) == before, 'the value has been modified')
        c.hit('formatted')
        # what exceeds is counted at the outermost level
        if isinstance(v, str):
            c.equal(r, repr(v) if len(v) < ms else repr(v[:ms] + '+%i...' % (len(v) - ms)), 'text in a log')
        elif v is None or isinstance(v, (bool, int, float, bytes)):
            c.equal(r, repr(v), 'scalar in a log')
        elif len(v) == 0:
            c.expect(r in ('{}', '[]'), 'empty collection is %r', r)
        elif isinstance(v, (dict, list, tuple)) and len(v) > me and len(r) < me * ms:
            c.expect(('+%i...' % (len(v) - me)) in r, '%i elements are formatted as %s', len(v), r)
            c.expect(r.endswith('+%i...%s' % (len(v) - me, '}' if isinstance(v, dict) else ']')), '%i elements are formatted as %s', len(v), r)
            c.hit('long')
        if isinstance(v, (dict, list, tuple, set, collections.deque)):
            c.expect(len(r) <= 3 * me * ms + 20, 'a collection is formatted in %i characters', len(r))
        # lazy formats
        a = [value(2) for _ in range(rng.randint(0, 3))]
        kw = {'x': value(2), 'y': scalar()} if rng.random() < .5 else {}
        short = [i for i in list(range(len(a))) + list(kw) if rng.random() < .5]
        fmt = ' '.join(['{}'] * len(a) + ['{%s}' % k for k in kw]) + rng.choice(['', ' end', ' {{}}'])
        rep = repr((a, kw))
        args = list(a)
        want = fmt.format(*[log_format(x) if i in short else x for i, x in enumerate(a)],
                          **{k: log_format(x) if k in short else x for k, x in kw.items()})
        lz = lazy_format(fmt, *a, to_format=short, **kw)
        c.equal(str(lz), want, 'lazy format')
        c.hit('lazy')
        c.equal(str(lz), want, 'lazy format again')
        c.hit('lazy_again')
        c.expect(repr((a, kw)) == rep, 'the arguments have been modified')
        if rng.random() < .1:
            p = Path('/tmp') / gen.word(rng) / '..' / gen.word(rng)
            c.equal(file_link_format(p), (Path('/tmp').resolve() / p.name).as_uri(), 'link to a file')
            c.equal(file_link_format(str(p)), (Path('/tmp').resolve() / p.name).as_uri(), 'link to a file')
