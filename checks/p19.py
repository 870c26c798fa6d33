# -*- coding: utf-8 -*-
"""P19 - canonical names and identifiers name each other in every namespace, at any time."""
from harness import gen


def register(run):
    from ngoschema.managers.namespace_manager import NamespaceManager, default_ns_manager
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.resolvers.uri_resolver import UriResolver
    from ngoschema.types.uri import Id, Canonical
    from ngoschema.utils.utils import Context
    run.rule = 'a distinct non-trivial case is a set of at least 3 documents named while namespaces and documents are added'
    run.assumptions = ['definitions have names made of letters, digits and underscores, different from the parts of names of namespaces',
                       'a name is not given to a property and a definition of the same object',
                       'documents do not have the same default name']
    run.require(names=4250, ids=6300, relative=440, local=1800, loaded=3970, late=270, inner=90, prefixes=1410, types=4250,
                definitions=820, unknown=720, default_names=2700, up0=530, up1=1510, up2=1450, again=150, relative_add=20,
                unnamed_add=40)

    DEFS = ['Foo', 'Bar', 'lower', 'with_underscore', 'A1', 'Zed', 'Inner', 'deepThing', 'x9']
    PROPS = ['p', 'size', 'someName', 'Caps', 'q_r']

    def tree(c, depth):
        """definitions: {name: (schema, definitions below)}"""
        rng = c.rng
        out = {}
        for n in rng.sample(DEFS, rng.randint(1, 3)):
            sub = tree(c, depth - 1) if depth and rng.random() < .6 else {}
            props = rng.sample(PROPS, rng.randint(0, 2)) if rng.random() < .6 else []
            out[n] = (sub, props)
        return out

    def schema(t):
        out = {}
        for n, (sub, props) in t.items():
            out[n] = {'type': 'object', 'properties': {p: {'type': 'integer'} for p in props}}
            if sub:
                out[n]['$defs'] = schema(sub)
        return out

    def walk(t, names=(), frag=''):
        for n, (sub, props) in t.items():
            f = '%s/$defs/%s' % (frag, n)
            yield names + (n, ), f, 'object'
            for p in props:
                yield names + (n, p), '%s/properties/%s' % (f, p), 'integer'
            yield from walk(sub, names + (n, ), f)

    def default_name(uri):
        scheme, rest = uri.split('://')
        host, *path = rest.split('/')
        parts = [] if host == 'numengo.org' else [host.split('.')[0].replace('-', '_')]
        for p in path:
            p = p.replace('-', '_')
            if p[0].isdigit() and parts:
                parts[-1] += '_' + p
            elif not p[0].isdigit():
                parts.append(p)
        return '.'.join(parts)

    @run.workload('names', quick=250, thorough=6000)
    def _(c):
        rng = c.rng
        root = gen.uid(c, 'r')
        base = rng.choice([root, root.replace('verif.test', 'my-host.com'), root.replace('http://verif.test', 'https://numengo.org')])
        uris = [base + s for s in rng.sample(['', '/sub', 'x', '/sub/more', '/subb', '/2020-01', '/v-2', '/sub/3'], rng.randint(3, 5))]
        docs = {u: tree(c, 2) for u in uris}
        registered = set()

        def reg(u):
            d = {'$defs': schema(docs[u])}
            if rng.random() < .5:
                d['$id'] = u
            UriResolver.register_doc(d, u)
            registered.add(u)
            c.log('document %s %s', u, sorted(docs[u]))
        for u in rng.sample(uris, rng.randint(1, len(uris))):
            reg(u)
        declared = {}

        def new_name():
            ns = [n for n in ('doc', 'd', 'doc2', 'doc.one', 'space', 'other.space.here', 'other', 'docs',
                              'other.z', 'other.space.near') if n not in declared]
            return rng.choice(ns) if ns else None

        def new_uri():
            u = rng.choice(sorted(registered))
            if rng.random() < .3:
                f = [f for _, f, k in walk(docs[u]) if k == 'object']
                c.hit('inner')
                return u + '#' + rng.choice(f)
            return u
        for _ in range(rng.randint(0, 2)):
            declared[new_name()] = new_uri()
        m = NamespaceManager(**declared) if rng.random() < .6 or not declared else NamespaceManager(dict(declared))
        own = dict(declared)
        current = None
        c.log('namespaces %r', declared)
        c.sig(len(uris), tuple(sorted(declared)), rng.random())

        def names_of(u, names, f):
            """the canonical names of a definition: with the most precise namespaces"""
            full = u + '#' + f
            best, found = -1, set()
            spaces = [(n, x) for n, x in declared.items()] + [(default_name(u), u)]
            for n, x in spaces:
                if x == u:
                    rest = names
                elif '#' in x and (full == x or full.startswith(x + '/')):
                    k = x.split('#')[1].count('$defs')
                    rest = names[k:]
                else:
                    continue
                size = len(x)
                name = '.'.join((n, ) + tuple(rest))
                if n in declared or not any(y == u for y in declared.values()):
                    if size > best:
                        best, found = size, set()
                    if size == best:
                        found.add(name)
            return found

        def shown(full):
            """identifiers in the document of the current namespace are relative"""
            if current and full.startswith(declared[current].split('#')[0] + '#'):
                return full[len(declared[current].split('#')[0]):]
            return full

        def judge():
            every = [(u, n, f, k) for u in sorted(registered) for n, f, k in walk(docs[u])]
            for u, names, f, kind in (every if len(every) < 6 else rng.sample(every, 6)):
                full = u + '#' + f
                want = names_of(u, names, f)
                got = m.get_id_cname(full)
                c.log('%s is %s', full, got)
                c.expect(got in want, '%s is named %r instead of %r', full, got, want)
                c.hit('names')
                c.hit('local', any(got == d or got.startswith(d + '.') for d in declared))
                c.hit('default_names', got.startswith(default_name(u) + '.'))
                c.hit('prefixes', any(x != u and u.startswith(x) for x in registered))
                for name in want | {'.'.join((default_name(u), ) + names)}:
                    c.equal(m.get_cname_id(name), shown(full), 'identifier of %s' % name)
                    c.hit('ids')
                    c.expect(name in m, '%s is not known', name)
                    if kind == 'object':
                        c.expect(m.load(name) is type_builder.load(full), 'type loaded by name %s', name)
                        c.hit('loaded')
                if current:
                    got = m.get_id_cname(full, relative=True)
                    inside = {n[len(current) + 1:] for n in want if n.startswith(current + '.') or n == current}
                    if len(want) == 1:
                        c.expect(got in (inside or want), '%s is named %r in %s', full, got, current)
                    if got and got in inside:
                        c.equal(m.get_cname_id('.' + got), shown(full), 'identifier of .%s' % got)
                        if '.' in current:
                            up = '..' + current.rsplit('.', 1)[1] + '.' + got
                            c.equal(m.get_cname_id(up), shown(full), 'identifier of %s' % up)
                        c.hit('relative')
                    for name in want:
                        parts, cur = name.split('.'), current.split('.')
                        same = 0
                        while same < min(len(cur), len(parts) - 1) and cur[same] == parts[same]:
                            same += 1
                        for q in range(same + 1):
                            up = '.' * (1 + len(cur) - q) + '.'.join(parts[q:])
                            c.equal(m.get_cname_id(up), shown(full), 'identifier of %s' % up)
                            c.hit('up%i' % min(len(cur) - q, 2))
                # through types
                ctx = Context(m)
                name = sorted(want)[0]
                c.equal(Id.convert(name, context=ctx), full, 'Id of %s' % name)
                c.equal(Id.convert(shown(full), context=ctx), full, 'Id of %s' % shown(full))
                c.equal(Id.serialize(full, context=ctx), shown(full), 'Id serialized')
                c.expect(Canonical.serialize(full, context=ctx) in want, 'canonical %s', full)
                c.equal(Canonical.convert(name, context=ctx), full, 'Canonical of %s' % name)
                c.hit('types')
            # documents
            u = rng.choice(sorted(registered))
            ns = {n for n, x in declared.items() if x == u} or {default_name(u)}
            for x in (u, u + '#'):
                c.expect(m.get_id_cname(x) in ns, 'document %s is named %r instead of %r', x, m.get_id_cname(x), ns)
            for n in ns:
                c.equal(m.get_cname_id(n), shown(u + '#'), 'identifier of %s' % n)
                c.equal(m.get_cname_definitions(n), {'%s.%s' % (n, d): '%s#/$defs/%s' % (u, d) for d in docs[u]}, 'definitions of %s' % n)
                c.hit('definitions')
            spaces = m.namespaces()
            for n, x in list(declared.items()):
                c.equal(spaces.get(n), x, 'namespace %s' % n)
            for x in registered:
                c.expect(default_name(x) in spaces, 'namespace %s', default_name(x))
            bad = 'nowhere%i.Foo' % rng.randint(0, 9)
            c.expect(bad not in m, '%s is known', bad)
            c.raises(lambda: m.load(bad), 'loading %s' % bad)
            c.hit('unknown')
            c.state(len(declared), len(registered), current is not None)
        judge()
        for _ in range(rng.randint(4, 7)):
            k = rng.random()
            late = [u for u in uris if u not in registered]
            if k < .3 and late:
                u = rng.choice(late)
                for m2 in (m, default_ns_manager):
                    # asked before it is known
                    m2.get_id_cname(u + '#/$defs/' + sorted(docs[u])[0])
                    m2.get_cname_id(default_name(u) + '.' + sorted(docs[u])[0])
                reg(u)
                c.hit('late')
            elif k < .42:
                # other definitions, below or beside the ones known
                u = rng.choice(sorted(registered))

                def merge(t1, t2):
                    for n, (sub, props) in t2.items():
                        sub1, props1 = t1.get(n, ({}, []))
                        t1[n] = (merge(sub1, sub), props1 + [p for p in props if p not in props1])
                    return t1
                merge(docs[u], tree(c, 2))
                reg(u)
                c.hit('again')
            elif k < .7 and new_name():
                n, u = new_name(), new_uri()
                if current and rng.random() < .5 and '#' not in declared[current]:
                    f = rng.choice([f for _, f, k in walk(docs[declared[current]]) if k == 'object'])
                    c.log('add #%s as %s', f, n)
                    m.add('#' + f, n)
                    u = declared[current] + '#' + f
                    c.hit('relative_add')
                elif rng.random() < .3:
                    c.log('add %s', u)
                    u0, _, f = u.partition('#')
                    n = '.'.join((default_name(u0), ) + tuple(f.split('/')[2::2]))
                    if n not in declared:
                        m.add(u)
                        c.hit('unnamed_add')
                    else:
                        u = declared[n]
                else:
                    c.log('add %s as %s', u, n)
                    m.add(u, n)
                declared[n] = u
                c.hit('late')
            elif declared:
                n = rng.choice(sorted(declared))
                c.log('current is %s', n)
                m.set_current(n)
                current = n
                c.equal((m.currentNs, m.currentNsUri), (n, declared[n]), 'current namespace')
            judge()
        # the default names do not depend on the manager
        u = rng.choice(sorted(registered))
        names, f, _ = rng.choice(list(walk(docs[u])))
        name = '.'.join((default_name(u), ) + names)
        c.equal(default_ns_manager.get_id_cname(u + '#' + f), name, 'default name')
        c.equal(default_ns_manager.get_cname_id(name), u + '#' + f, 'default identifier')
