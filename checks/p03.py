# -*- coding: utf-8 -*-
"""P03 - serialized primitive values are read back to equal values (uri, path and plain scalars)."""
import pathlib
import string
import urllib.parse
from decimal import Decimal

from harness import gen


def register(run):
    from ngoschema import types
    run.rule = 'a distinct non-trivial case is a set of one value per primitive kind, stored flat, nested and in arrays'
    run.require(uri=200, path=200, scalar=400, object=60)

    def seg(rng):
        alphabet = string.ascii_letters + string.digits + '-_.~ %@:+,;=!$()' + '\u00e9\u4f60'
        while True:
            s = ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 8)))
            if s.strip('. '):
                return s

    def uri(rng):
        k = rng.random()
        if k < .15:
            return rng.choice([gen.word(rng), gen.word(rng) + '/' + gen.word(rng), '//h/' + gen.word(rng), '/' + gen.word(rng) + ';v=1',
                               'urn:%s:%s' % (gen.word(rng), gen.word(rng)), 'mailto:%s@b.c' % gen.word(rng), '?q=' + gen.word(rng),
                               '../%s/./x' % gen.word(rng), 'http://[::1]:80/' + gen.word(rng)])
        scheme = rng.choice(['http', 'https', 'ftp', 'urn', 'file', 'x-y'])
        host = rng.choice(['a.b', 'example.com:8080', 'user:pw@h', '127.0.0.1'])
        path = '/' + '/'.join(urllib.parse.quote(seg(rng)) for _ in range(rng.randint(0, 3)))
        s = '%s://%s%s' % (scheme, host, path)
        if rng.random() < .2:
            s += ';%s=%s' % (gen.word(rng), rng.randint(0, 9))
        if rng.random() < .5:
            s += '?%s=%s' % (gen.word(rng), urllib.parse.quote(seg(rng)))
        if rng.random() < .6:
            s += '#' + rng.choice(['', '/$defs/' + gen.word(rng), gen.word(rng)])
        return s

    def path(rng):
        s = '/'.join(seg(rng) if i == 0 or rng.random() < .85 else '..' for i in range(rng.randint(1, 4)))
        k = rng.random()
        return ('/' if k < .4 else './' if k < .5 else '../' if k < .6 else '') + s

    @run.workload('uris', quick=250)
    def _(c):
        s = uri(c.rng)
        c.sig('uri', s)
        want = urllib.parse.urlparse(s)
        t = c.rng.choice([types.Uri(), gen.build(gen.uid(c, 'u'), {'type': 'uri'})])
        v = t(s)
        c.equal(v, want, 'uri of %r', s)
        c.expect(t(v) is v, 'a parsed uri is not left alone')
        for out in (types.Uri.serialize(v), types.Uri.serialize(v, deserialize=False), t(s, serialize=True)):
            c.equal(out, want.geturl(), 'serialized uri %r', s)
        c.equal(t(want.geturl()), urllib.parse.urlparse(want.geturl()), 'uri read back')
        p = path(c.rng)
        pp = pathlib.Path(p)
        c.equal(t(pp), urllib.parse.urlparse(pp.resolve().as_uri()), 'uri of the path %r', p)
        c.hit('uri')

    @run.workload('paths', quick=250)
    def _(c):
        s = path(c.rng)
        c.sig('path', s)
        t = c.rng.choice([types.Path(), gen.build(gen.uid(c, 'p'), {'type': 'path'})])
        want = pathlib.Path(s)
        v = t(s)
        c.equal(v, want, 'path of %r', s)
        c.equal(t(v), want, 'path of a path')
        for out in (types.Path.serialize(v), types.Path.serialize(v, deserialize=False), t(s, serialize=True)):
            c.equal(out, str(want), 'serialized path %r', s)
        c.equal(t(str(want)), want, 'path read back')
        if ':' not in s and not s.startswith('//'):
            u = urllib.parse.urlparse(urllib.parse.quote(s))
            c.equal(t(u), want, 'path of the relative uri %r', u)
        c.hit('path')

    @run.workload('objects', quick=70)
    def _(c):
        """one property of each kind, flat, nested and in arrays: serialize, rebuild, compare"""
        rng = c.rng
        kinds = {'s': ('string', gen.text(rng), str), 'i': ('integer', gen.integer(rng), int),
                 'n': ('number', gen.decimal(rng), Decimal), 'b': ('boolean', rng.random() < .5, bool),
                 'u': ('uri', uri(rng), urllib.parse.ParseResult), 'p': ('path', path(rng), pathlib.PosixPath)}
        props = {k: {'type': v[0]} for k, v in kinds.items()}
        arr = {'l' + k: {'type': 'array', 'items': {'type': v[0]}} for k, v in kinds.items()}
        A = gen.pclass({'properties': dict(props, o={'type': 'object', 'properties': props}, **arr)}, gen.uid(c))
        raw = {k: v[1] for k, v in kinds.items()}
        data = dict(raw, o=dict(raw), **{'l' + k: [v[1]] for k, v in kinds.items()})
        c.sig(raw)
        a = A(**data)

        def canon(k, v):
            """the serialized form"""
            if k == 'u':
                return urllib.parse.urlparse(v).geturl()
            if k == 'p':
                return str(pathlib.Path(v))
            return v

        def plain(v):
            return {k: plain(v[k]) for k in v} if isinstance(v, dict) else [plain(x) for x in v] \
                if isinstance(v, list) else v
        want = {k: canon(k, v) for k, v in raw.items()}
        want.update(o={k: canon(k, v) for k, v in raw.items()}, **{'l' + k: [canon(k, v)] for k, v in raw.items()})
        s1 = plain(a.do_serialize())
        c.equal(s1, want, 'serialized object')
        b = A(**s1)
        for k, (kind, v, py) in kinds.items():
            for x, y in ((a[k], b[k]), (a.o[k], b.o[k]), (a['l' + k][0], b['l' + k][0])):
                c.expect(type(x) is py, '%s property holds a %s', kind, type(x).__name__)
                c.equal(y, x, '%s read back', kind)
                c.hit('scalar')
        c.equal(plain(b.do_serialize()), s1, 'serialized again')
        c.expect(a == b, 'an object differs from the one rebuilt from its serialization: %s / %s', a, b)
        c.equal(str(a.n), str(b.n), 'digits of the number')
        c.hit('object')
