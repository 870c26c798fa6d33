# -*- coding: utf-8 -*-
"""P20 - documents and JSON pointers: a uri always designates the value at its pointer in the document registered last."""
from urllib.parse import quote

from harness import gen

# keys one of which is what the other one looks like, encoded
TWINS = [('p%25q', 'p%q'), ('a~1b', 'a/b'), ('m~0n', 'm~n'), ('~01', '~1'), ('x%20y', 'x y'), ('%2F', '/'), ('%7E1', '~1'), ('1', '01'),
         ('a+b', 'a b'), ('%23', '#'), ('A', 'a'), ('%252F', '%2F')]
KEYS = ['a', 'b', 'B', '$defs', 'properties', 'a/b', '~', '~1', '~01', 'm~n', '%', 'p%25q', 'x y', '\u00e9', '0', '-', 'a.b', '#',
        'q?r', '"', 'o:p', '+', '&=']


def register(run):
    from ngoschema.exceptions import InvalidValue
    from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri, resolve_doc, scope
    from ngoschema.loaders.schemas import load_schema
    from jsonschema.exceptions import SchemaError
    run.rule = 'a distinct non-trivial case is a (documents, history of at least 15 registrations and resolutions)'
    run.assumptions = ['no empty key in the pointers', 'no remote documents']
    run.require(resolved=2500, missing=500, escaped=500, indices=300, replaced=150, removed=80, scoped=200, loaded=100, spelled=300,
                twins=40, all_members=2000)

    def doc(rng, depth=0):
        k = rng.random()
        if depth >= 4 or depth > 0 and k < .25:
            return rng.choice([1, 'text', None, True, 2.5, 0, '', []])
        if depth > 0 and k < .5:
            return [doc(rng, depth + 1) for _ in range(rng.randint(1, 4))]
        names = rng.sample(KEYS, rng.randint(2, 5))
        if rng.random() < .5:
            names.extend(rng.choice(TWINS))
        rng.shuffle(names)
        return {n: doc(rng, depth + 1) for n in names}

    def twin(rng, d):
        """a document equal to d which is another one, possibly of other types"""
        if isinstance(d, dict):
            return {k: twin(rng, v) for k, v in d.items()}
        if isinstance(d, list):
            return [twin(rng, v) for v in d]
        if d in (1, 0) and rng.random() < .5:
            return rng.choice([bool(d), int(d), float(d)])
        return d

    def walk(rng, d):
        path = []
        while rng.random() < .85 and isinstance(d, (dict, list)) and d:
            k = rng.choice(list(d)) if isinstance(d, dict) else rng.randrange(len(d))
            path.append(k)
            d = d[k]
        return path, d

    def pointer(rng, path):
        parts = [str(p).replace('~', '~0').replace('/', '~1') for p in path]
        safe = rng.choice(['$~:+&=.-', '', '$', "!$&'()*+,;=:@~"])
        return ''.join('/' + quote(p, safe=safe) for p in parts)

    @run.workload('registry', quick=90, thorough=3000)
    def _(c):
        rng = c.rng
        base = gen.uid(c, 'Doc')
        uris = ['%s/%s' % (base, n) for n in ('One', 'two.json', 'x/Three')]
        store = {}
        n = rng.randint(15, 30)
        c.sig(base, n, rng.random())
        for step in range(n):
            u = rng.choice(uris)
            op = rng.choice(['register', 'register', 'unregister', 'load', 'resolve', 'resolve', 'resolve', 'resolve'])
            if u not in store and op in ('unregister', 'resolve'):
                op = 'absent'
            c.log(op, u)
            if op in ('register', 'load'):
                d = doc(rng)
                if u in store and rng.random() < .4:
                    d = twin(rng, store[u])
                    c.hit('twins')
                if op == 'load':
                    key = rng.choice(['$id', 'id'])
                    d.pop('$id', None)
                    d.pop('id', None)
                    d[key] = u + rng.choice(['', '#'])
                    r = load_schema(d, rng.choice([None, {}]))
                    c.equal(r[0], u, 'uri of the loaded schema')
                    c.expect(r[1] is d, 'the loaded schema is another one')
                    c.hit('loaded')
                else:
                    UriResolver.register_doc(d, u)
                c.hit('replaced', u in store)
                store[u] = d
            elif op == 'unregister':
                UriResolver.unregister_doc(u)
                del store[u]
                c.hit('removed')
            # a document is any value, empty ones included
            w = rng.choice([[], {}, [{'a': [0]}, []], [[], {'': 1}], {'a': {}}])
            other = base + '/other'
            UriResolver.register_doc(w, other)
            c.expect(resolve_uri(other + rng.choice(['', '#'])) is w and resolve_doc(other) is w, 'the document %r is not found', w)
            for i in range(len(w) if isinstance(w, list) else 0):
                c.expect(resolve_uri('%s#/%i' % (other, i)) is w[i], 'item %i of the document %r', i, w)
            UriResolver.unregister_doc(other)
            c.hit('others')
            # after every operation, all the documents are as they should
            for v in uris:
                spelled = rng.choice([v, v, v.upper(), v.lower(), v.replace('http', 'HTTP')])
                c.hit('spelled', spelled != v)
                if v not in store:
                    c.raises(lambda: resolve_uri(spelled + rng.choice(['', '#', '#/a'])), 'unregistered %s', v)
                    c.raises(lambda: resolve_doc(spelled), 'unregistered %s', v)
                    continue
                d = store[v]
                c.expect(resolve_uri(spelled + rng.choice(['', '#'])) is d, '%s is not the registered document', spelled)
                c.expect(resolve_doc(spelled) is d, '%s is not the registered document', spelled)
                # every member of an object met on the way, on its own pointer
                path, val = walk(rng, d)
                while path and not isinstance(val, dict):
                    path.pop()
                    val = d
                    for k in path:
                        val = val[k]
                for k, w in val.items():
                    p = pointer(rng, path + [k])
                    c.expect(resolve_uri('%s#%s' % (v, p)) is w, '%s#%s is not the member %r', v, p, k)
                    c.hit('all_members')
                for _ in range(3):
                    path, val = walk(rng, d)
                    p = pointer(rng, path)
                    got = resolve_uri('%s#%s' % (spelled, p))
                    c.expect(got is val, '%s#%s is %r, expected %r (the very value of the document)', spelled, p, got, val)
                    c.equal(UriResolver._resolve(None, '%s#%s' % (spelled, p)), val, 'resolver of %s', p)
                    c.equal(resolve_uri('nowhere#' + p, doc=d), val, 'in a given document, %s', p)
                    c.hit('resolved')
                    c.hit('escaped', any(set(str(x)) & set('/~% "') for x in path))
                    c.hit('indices', any(isinstance(x, int) for x in path))
                    if scope('#' + p, v + '#/any') != v + '#' + p or scope('#' + p, v) != v + '#' + p:
                        c.expect(False, 'scope of #%s in %s', p, v)
                    c.equal(scope('%s#%s' % (uris[0], p), v), '%s#%s' % (uris[0], p), 'scope of an absolute reference')
                    c.hit('scoped')
                    # something which is not there
                    bad = None
                    if isinstance(val, dict):
                        bad = rng.choice([k for k in KEYS + ['zz', 'A'] if k not in val])
                    elif isinstance(val, list):
                        bad = rng.choice([len(val), len(val) + 3, 'a', -1, -len(val) or -1, '+0', '00', ' 0', '-0', '0x0', '\u0660'])
                    elif val is None or isinstance(val, (int, float)):
                        bad = 'a'
                    if bad is not None:
                        c.raises(lambda: resolve_uri('%s#%s%s' % (v, p, pointer(rng, [bad]))), 'missing %r after %s', bad, p,
                                 kinds=InvalidValue)
                        c.hit('missing')

    @run.workload('title', quick=15, thorough=100)
    def _(c):
        t = 'Title %s %i' % (gen.word(c.rng), c.index)
        c.sig(t)
        s = {'title': t, 'type': 'object'}
        u, r = load_schema(s)
        c.expect(u and resolve_uri(u) is s, 'schema without id loaded as %r', u)
        c.raises(lambda: load_schema({'type': 'object'}), 'schema without id and title', kinds=SchemaError)
