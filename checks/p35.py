# -*- coding: utf-8 -*-
"""P35 - the files, templates and schemas of registered modules are found, each in its module."""
import json
import os
import pathlib
import shutil
import sys
import tempfile

from harness import gen

KINDS = ['templates', 'transforms', 'objects', 'static']
RELS = ['a.txt', 'b.txt', 'sub/a.txt', 'sub/deep/c.txt', 'd e.txt']


def register(run):
    import inflection
    import jinja2
    import ngoschema.utils.jinja2  # noqa: the name is also a function's
    from ngoschema.loaders import register_module
    from ngoschema.loaders import module as loaders
    from ngoschema.resolvers.uri_resolver import resolve_uri
    from ngoschema.managers.type_builder import type_builder
    J = sys.modules['ngoschema.utils.jinja2']
    run.rule = 'a distinct non-trivial case is a set of modules with files of same names and an order of registrations'
    run.require(changed_on_disk=30, filtered=300, found=1050, found_without_module=980, no_template=1030, not_found=830,
                other_environment=30, rendered=350, schemas=50, several_folders=20)
    LOADERS = loaders.GenericModuleFileLoader.module_loaders_registry

    def write(path, text):
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_bytes(text.encode('utf-8'))

    @run.workload('modules', quick=60)
    def _(c):
        rng = c.rng
        d = pathlib.Path(tempfile.mkdtemp(prefix='verif_p35_')).resolve()
        old = os.getcwd()
        before = {k: {m: list(v) for m, v in loader.items()} for k, loader in LOADERS.items()}
        sys.path.insert(0, str(d))
        try:
            os.chdir(str(d))
            mods = ['verifp35_%i_%i_%s' % (run.seed, c.index, n) for n in 'xyz'[:rng.randint(1, 3)]]
            files = {}      # module -> folder -> relative name -> text or rendered text
            schemas = {}
            for m in mods:
                write(d / m / '__init__.py', '')
                files[m] = {}
                for folder in KINDS + ['more', 'more_templates/nested']:
                    if rng.random() < .25:
                        continue
                    files[m][folder] = {}
                    for rel in rng.sample(RELS, rng.randint(1, 4)):
                        text = '%s/%s/%s {{ x }}\n' % (m, folder, rel)
                        files[m][folder][rel] = text
                        write(d / m / folder / rel, text)
                schemas[m] = {}
                for i in range(rng.randint(0, 3)):
                    name = '%s_s%i' % (m, i)
                    kind = rng.choice(['id', 'stem', 'bad', 'deep'])
                    s = {'type': 'object', 'properties': {'p': {'type': 'integer', 'default': rng.randint(0, 99)}}}
                    u = 'http://verif.p35/%s' % name
                    if kind == 'bad':
                        write(d / m / 'schemas' / (name + '.json'), '{"$id": "%s", ' % u)
                        continue
                    if kind == 'stem':
                        u = name
                    else:
                        s['$id'] = u
                    write(d / m / 'schemas' / ('sub' if kind == 'deep' else '') / (name + '.json'), json.dumps(s))
                    schemas[m][u] = s
            model = {k: {} for k in KINDS}   # kind -> module -> folders

            def check():
                for kind in KINDS:
                    loader = LOADERS[kind]
                    got = {m: [str(p) for p in loader[m]] for m in mods if m in loader}
                    want = {m: [str(d / m / f) for f in fs] for m, fs in model[kind].items()}
                    c.equal(got, want, 'folders of %s', kind)
                    for m in mods:
                        for rel in RELS:
                            has = [d / m / f / rel for f in model[kind].get(m, ()) if rel in files[m][f]]
                            if m not in model[kind]:
                                continue
                            p = loader.find_one('%s/%s' % (m, rel))
                            c.equal(p, has[0] if has else None, '%s/%s of %s', m, rel, kind)
                            c.hit('found' if has else 'not_found')
                            if len(has) > 1:
                                c.hit('several_folders')
                    for rel in RELS:
                        every = [d / m / f / rel for m in model[kind] for f in model[kind][m] if rel in files[m][f]]
                        mine = loader.find_one(rel)
                        if every and not any(v for m, v in before[kind].items() if m not in mods):
                            c.expect(mine in every, '%s of %s is found as %s, not one of %s', rel, kind, mine, every)
                            c.hit('found_without_module')

            def render(env):
                for m in mods:
                    for rel in RELS:
                        has = [files[m][f][rel] for f in model['templates'].get(m, ()) if rel in files[m][f]]
                        name = '%s/%s' % (m, rel)
                        x = gen.word(rng)
                        if not has:
                            try:
                                t = env.get_template(name)
                                c.expect(False, '%s is found as %s', name, t.filename)
                            except jinja2.TemplateNotFound:
                                c.hit('no_template')
                            continue
                        try:
                            t = env.get_template(name)
                        except jinja2.TemplateNotFound:
                            c.expect(False, 'template %s is not found', name)
                        c.equal(t.render(x=x), has[0].replace('{{ x }}', x), 'template %s', name)
                        s = J.TemplatedString('<{%% include "%s" %%}>{%% if x %%}\n{%% endif %%}' % name)
                        c.equal(s(x=x), '<%s>' % has[0].replace('{{ x }}', x), 'inclusion of %s', name)
                        c.hit('rendered')

            J.default_jinja2_env()
            for _ in range(rng.randint(3, 7)):
                m = rng.choice(mods)
                op = rng.choice(['module', 'module', 'folder', 'change'])
                c.log(op, m)
                if op == 'module':
                    register_module(m)
                    for k in KINDS:
                        if k in files[m] and k not in model[k].get(m, ()):
                            model[k].setdefault(m, []).append(k)
                    for u, s in schemas[m].items():
                        c.equal(json.loads(json.dumps(resolve_uri(u + '#/properties'))), s['properties'], 'schema %s of %s', u, m)
                        c.equal(type_builder.load(u)().p, s['properties']['p']['default'], 'type of %s', u)
                        c.hit('schemas')
                elif op == 'folder':
                    k = rng.choice(KINDS[:1] * 3 + KINDS)
                    f = rng.choice(['more', 'more_templates/nested'])
                    r = LOADERS[k].register(m, f)
                    c.equal(r, d / m / f, 'folder registered')
                    if f in files[m] and f not in model[k].get(m, ()):
                        model[k].setdefault(m, []).append(f)
                else:
                    f = rng.choice(sorted(files[m]) or [None])
                    if f:
                        rel = rng.choice(sorted(files[m][f]))
                        text = files[m][f][rel] = 'changed %i {{ x }}\n' % rng.randint(0, 999)
                        write(d / m / f / rel, text)
                        os.utime(str(d / m / f / rel), (rng.randint(1, 10 ** 9), rng.randint(1, 10 ** 9)))
                        c.hit('changed_on_disk')
                check()
                render(J.default_jinja2_env())
                if rng.random() < .3:
                    env = J.ModulePrefixedJinja2Environment(extensions=['jinja2.ext.loopcontrols'])
                    env.update_loader()
                    for name in list(model['templates']):
                        c.expect(name in env.loader.mapping, '%s has no templates in another environment', name)
                    render(env)
                    c.hit('other_environment')
            for k, loader in LOADERS.items():
                for m, v in before[k].items():
                    c.equal(list(loader[m]), v, 'folders of %s of another module, %s', k, m)
            c.sig(str(files), str(model))
        finally:
            os.chdir(old)
            sys.path.remove(str(d))
            for loader in LOADERS.values():
                for m in list(loader.keys()):
                    if m.startswith('verifp35_'):
                        loader._registry.pop(m)
            J.default_jinja2_env().update_loader()
            shutil.rmtree(str(d))

    @run.workload('filters', quick=150)
    def _(c):
        rng = c.rng

        def word():
            return rng.choice(['', ' ', '_', '-']).join(
                rng.choice(['foo', 'Bar', 'person', 'child', 'status', 'id', 'HTML', 'x1', '\u00e9t\u00e9', 'boxes', 'mice', 'oxen'])
                for _ in range(rng.randint(1, 3)))
        for _ in range(5):
            w, n = word(), rng.choice([0, 1, 2, 3, 4, 10, 11, 12, 13, 21, 22, 101, 111, 112, rng.randint(0, 2000)])
            for name in ('camelize', 'dasherize', 'parameterize', 'pluralize', 'singularize', 'tableize', 'titleize',
                         'transliterate', 'underscore'):
                c.equal(J.TemplatedString('{{ x|%s }}' % name)(x=w), getattr(inflection, name)(w), '%s of %r', name, w)
            c.equal(J.TemplatedString('{{ x|camelize(False) }}')(x=w), inflection.camelize(w, False), 'camelize of %r', w)
            for name in ('ordinal', 'ordinalize'):
                for x in (n, str(n)):
                    c.equal(J.TemplatedString('{{ x|%s }}' % name)(x=x), getattr(inflection, name)(n), '%s of %r', name, n)
            sep = rng.choice([',', ' ', '_', 'o'])
            k = rng.choice([-1, 0, 1, 2])
            for name in ('split', 'rsplit'):
                c.equal(J.TemplatedString('{{ (x|%s(s, k))|join("|") }}' % name)(x=w, s=sep, k=k),
                        '|'.join(getattr(w, name)(sep, k)), '%s of %r by %r %i times', name, w, sep, k)
                c.equal(J.TemplatedString('{{ (x|%s)|length }}' % name)(x=None), '1', '%s of nothing', name)
            c.equal(J.TemplatedString('{{ x|last }}')(x=w), w[-1], 'last of %r', w)
            c.equal(J.TemplatedString('{{ x|split(s)|last }}')(x=w, s=sep), w.split(sep)[-1], 'last part of %r', w)
            g = 'glob_%s' % gen.word(rng)
            J.extend_jinja2_globals(**{g: n})
            c.equal(J.TemplatedString('{{ %s + 1 }}' % g)(), str(n + 1), 'global %s', g)
            c.equal(J.TemplatedString('{{ %s + 1 }}' % g)(**{g: 1}), '2', 'global %s also in the context', g)
            c.equal(J.TemplatedString('{{ _(x) }}{% trans %} and {{ x }}{% endtrans %}')(x=w), '%s and %s' % (w, w), 'translation')
            k = rng.randint(0, 4)
            got = J.TemplatedString('{% for i in range(9) %}\n    {% if i == k %}\n{% break %}\n    {% endif %}\n {{ i }}\n'
                                    '{% endfor %}\n{{ x|upper }}\n')(x=w, k=k)
            c.equal(got, ''.join(' %i\n' % i for i in range(k)) + w.upper() + '\n', 'blocks')
            c.hit('filtered')
            c.sig(w, n, sep)
