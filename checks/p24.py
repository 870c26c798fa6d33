# -*- coding: utf-8 -*-
"""P24 - JSON, YAML and XML texts are read back as the values they were written from."""
import json
import xml.etree.ElementTree as ET
from collections import OrderedDict

from harness import gen

NAMES = ['a', 'b', 'item', 'Node', 'x-y', 'n.1', '_u', '\u00e9l\u00e9', 'element', 'group', 'ns:el', 'import']
SPECIAL = '&<>"\'\u00e9\u20ac\U0001f600 \t\n.,;:#@%{}[]()=-_/\\|*?!$^~`+1aZ'


def register(run):
    from ngoschema.serializers.json_serializer import JsonSerializer
    from ngoschema.serializers.yaml_serializer import YamlSerializer
    from ngoschema.serializers.xml_serializer import XmlSerializer, XmlDeserializer
    from ngoschema.utils import xmltodict
    run.rule = 'a distinct non-trivial case is a value with at least one nested collection, or a document with at least 3 elements'
    run.assumptions = ['XML texts have no carriage return, no characters forbidden in XML, and no spaces around what is not spaces',
                       'YAML and JSON keys are strings']
    run.require(ascii=70, bare_declaration=100, bytes=60, chunks=50, entities=280, file=50, json=360, latin=9, long=80,
                mapped=370, mixed=240, namespaced=480, ns_attributes=210, ns_written=200, padded=150, pretty=160,
                redeclared=40, refused=1480, repeated=210, shared=20, str=100, streamed=160, tails=170, undeclared=330,
                xml_deserialized=560, xml_read=4840, xml_serialized=280, xml_written=1960, yaml=140, yaml_json=90)

    def text(rng, n=14):
        k = rng.random()
        if k < .08:
            return ''
        if k < .3:
            return rng.choice(['null', 'true', '1', '1.5', 'yes', '~', '- a', 'a: b', '# c', '2020-01-01', "'q'", '"', '\\', '!t', '&a',
                               '*a', '|', '>', '%x', '@y', '0x1', '1e3', '.inf', '...', '---', '{a', '\u2028', '\x7f', '0o7', '012'])
        if k < .32:
            return ''.join(rng.choice(SPECIAL) for _ in range(rng.randint(8000, 40000)))
        return ''.join(rng.choice(SPECIAL) for _ in range(rng.randint(1, n)))

    def value(rng, depth=3):
        k = rng.random()
        if depth and k < .3:
            return {text(rng, 6)[:50]: value(rng, depth - 1) for _ in range(rng.randint(0, 4))}
        if depth and k < .55:
            return [value(rng, depth - 1) for _ in range(rng.randint(0, 4))]
        if k < .75:
            return text(rng)
        return rng.choice([None, True, False, 0, 1, -1, 2 ** 70, rng.randint(-10 ** 9, 10 ** 9), rng.randint(-999, 999) / 8.,
                           1e300, 5e-324, -0.25])

    def same(a, b):
        """equal, and of the same types"""
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(map(same, a, b))
        return type(a) is type(b) and a == b

    def nested(v):
        return isinstance(v, (dict, list)) and any(isinstance(x, (dict, list)) for x in (v.values() if isinstance(v, dict) else v))

    @run.workload('json', quick=900, thorough=30000)
    def _(c):
        rng = c.rng
        v = value(rng)
        opts = {}
        if rng.random() < .6:
            opts['indent'] = rng.choice([None, 0, 1, 2, 4])
        if rng.random() < .4:
            opts['ensure_ascii'] = rng.random() < .5
        if rng.random() < .3:
            opts['separators'] = rng.choice([(',', ':'), (', ', ' : '), None])
        if rng.random() < .2:
            opts['default'] = lambda x: {'set': sorted(x)}
        s = JsonSerializer(**opts)
        other = JsonSerializer(indent=7, ensure_ascii=True)
        if nested(v):
            c.sig(repr(v)[:300], repr(opts))
        t = s.serialize_json(v, deserialize=False)
        c.log('json %s %s', opts, t[:200])
        c.expect(same(json.loads(t), v), 'JSON text of %r', v)
        c.equal(t, json.dumps(v, **dict(dict(indent=2, ensure_ascii=False), **opts)), 'JSON text with %r' % opts)
        c.expect(same(s.deserialize_json(t, evaluate=False), v), 'value read from %r: %r', t, s.deserialize_json(t, evaluate=False))
        c.expect(same(other.deserialize_json(t, evaluate=False), v), 'value read by another serializer')
        c.expect(same(JsonSerializer.deserialize(t, evaluate=False), v), 'value read without a serializer')
        c.equal(JsonSerializer.serialize(v, deserialize=False), json.dumps(v, indent=2, ensure_ascii=False), 'JSON text without options')
        c.hit('json')
        c.hit('ascii', bool(opts.get('ensure_ascii')))
        c.hit('long', len(t) > 8000)
        if 'default' in opts:
            c.equal(json.loads(s.serialize_json([{3, 1}], deserialize=False)), [{'set': [1, 3]}], 'what has no JSON text')
        else:
            c.raises(lambda: s.serialize_json([{3, 1}], deserialize=False), 'serializing a set')
        bad = rng.choice([t + ']', t[:-1] if t[-1:] in ']}"' else '{' + t, '{"a": }', "{'a': 1}", ''])
        c.raises(lambda: s.deserialize_json(bad, evaluate=False), 'reading %r', bad[:50])
        c.hit('refused')

    @run.workload('yaml', quick=350, thorough=12000)
    def _(c):
        rng = c.rng
        v = value(rng)
        if rng.random() < .2:
            shared = value(rng, 1)
            v = {'x': shared, 'y': [shared, v], 'z': v}
            c.hit('shared')
        if nested(v):
            c.sig(repr(v)[:300])
        opts = {'indent': rng.choice([2, 3, 4, 6])} if rng.random() < .5 else {}
        s = YamlSerializer(**opts)
        before = repr(v)
        t = s.serialize_yaml(v, deserialize=False)
        c.log('yaml %s', t[:200])
        c.expect(repr(v) == before, 'the value written has been modified')
        got = s.deserialize_yaml(t, evaluate=False)
        c.expect(unordered(got, v), 'value read from %r: %r instead of %r', t, got, v)
        c.expect(unordered(YamlSerializer.deserialize(t, evaluate=False), v), 'value read without a serializer')
        c.expect(unordered(YamlSerializer.deserialize(YamlSerializer.serialize(v, deserialize=False), evaluate=False), v),
                 'value written without a serializer')
        c.hit('yaml')
        # what comes from JSON is YAML
        t = json.dumps(v, ensure_ascii=True)
        if '\\ud8' not in t and '\\ud9' not in t and 'e+' not in t and 'e-' not in t:
            got = s.deserialize_yaml(t, evaluate=False)
            c.expect(unordered(got, v), 'value read from the JSON text %r: %r', t, got)
            c.hit('yaml_json')
        for bad in ('a: [1, 2', 'a: b: c', '!!python/object/apply:os.getcwd []', '"x'):
            c.raises(lambda: s.deserialize_yaml(bad, evaluate=False), 'reading %r', bad)
            c.hit('refused')

    def unordered(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(unordered(a[k], b[k]) for k in a)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(map(unordered, a, b))
        return type(a) is type(b) and a == b

    def plain(v):
        return json.loads(json.dumps(v))

    # XML

    def xtext(rng):
        if rng.random() < .3:
            return ''
        return text(rng).replace('\x7f', 'x').strip()

    class E:
        """an element of a document"""
        def __init__(self, rng, depth, names, root=False):
            self.name = rng.choice(names)
            self.attrs = OrderedDict((n, text(rng).replace('\x7f', 'x')[:200]) for n in rng.sample(NAMES, rng.choice([0, 0, 1, 3])))
            self.text = xtext(rng)
            self.children, self.tail, self.comments = [], '', []
            if depth and (root or rng.random() < .6):
                self.children = [E(rng, depth - 1, names) for _ in range(rng.randint(1, 5))]
                self.tail = xtext(rng) if rng.random() < .3 else ''

        def every(self):
            yield self
            for x in self.children:
                yield from x.every()

        def value(self, o):
            """what the document reads"""
            out = OrderedDict()
            if o.get('xml_attribs', True):
                for n, x in self.attrs.items():
                    out[o['attr_prefix'] + n] = x
            for x in self.children:
                v = x.value(o)
                force = o['force_list']
                if x.name in out:
                    if isinstance(out[x.name], list):
                        out[x.name].append(v)
                    else:
                        out[x.name] = [out[x.name], v]
                elif force is True or (force and x.name in force):
                    out[x.name] = [v]
                else:
                    out[x.name] = v
            if not out:
                return self.text
            if self.text:
                out[o['cdata_key']] = self.text
            if self.tail:
                out['#tail'] = self.tail
            return out

        def written(self, rng, comments, depth=0):
            """a text of the document, with some liberties"""
            def esc(s, attr=False):
                out = []
                for ch in s:
                    if ch in '&<>"':
                        if rng.random() < .2:
                            out.append('&#x%x;' % ord(ch))
                        else:
                            out.append({'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}[ch])
                    elif attr and ch in '\n\t':
                        out.append('&#%i;' % ord(ch))
                    else:
                        out.append(ch)
                return ''.join(out)

            def txt(s):
                if s and rng.random() < .2 and ']]>' not in s:
                    return '<![CDATA[%s]]>' % s
                if len(s) > 1 and rng.random() < .2 and ']]>' not in s:
                    i = rng.randint(1, len(s) - 1)
                    return esc(s[:i]) + '<![CDATA[%s]]>' % s[i:]
                return esc(s)
            pad = self.padding
            attrs = ''.join('%s%s=%s' % (rng.choice([' ', '\n  ']), n, '"%s"' % esc(x, True)) for n, x in self.attrs.items())
            if not self.children and not self.text and rng.random() < .5:
                return '<%s%s/>' % (self.name, attrs)
            note = '<!-- %s -->' % 'note' if comments and rng.random() < .3 else ''
            return '<%s%s>%s%s%s%s%s%s%s</%s>' % (self.name, attrs, pad, txt(self.text), pad,
                                                  ''.join(x.written(rng, comments) + (pad if pad else '') for x in self.children),
                                                  note if self.children else '', txt(self.tail), pad, self.name)

    def options(rng):
        o = {'attr_prefix': rng.choice(['@', '@', '_at_', '$']), 'cdata_key': rng.choice(['#text', '#text', '#value']),
             'force_list': rng.choice([None, None, True, ('a', 'item'), ('element', )])}
        return o

    @run.workload('xml_read', quick=700, thorough=25000)
    def _(c):
        rng = c.rng
        names = rng.sample(NAMES, rng.randint(2, 5))
        E.padding = rng.choice(['', '', '\n', '\n    ', ' '])
        e = E(rng, rng.randint(1, 4), names, True)
        o = options(rng)
        if o['force_list'] is True:
            # it is for attributes, texts and tails too
            o['force_list'] = None
        if rng.random() < .15:
            o['xml_attribs'] = False
        t = e.written(rng, rng.random() < .3)
        if any(len(x.text) and not x.children and E.padding for x in e.every()):
            c.hit('padded')
        size = len(list(e.every()))
        if size >= 3:
            c.sig(t[:300])
        c.log('xml %s %s', o, t[:300])
        kind = rng.choice(['str', 'bytes', 'chunks', 'file', 'latin'])
        data = t
        kw = {}
        if kind == 'bytes':
            data = ('<?xml version="1.0" encoding="utf-8"?>\n' + t).encode('utf-8')
        elif kind == 'latin':
            try:
                data = ('<?xml version="1.0" encoding="iso-8859-1"?>' + t).encode('latin-1')
            except UnicodeEncodeError:
                kind = 'str'
        elif kind == 'chunks':
            b = t.encode('utf-8')
            cuts = sorted(rng.randint(0, len(b)) for _ in range(4))
            data = (b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)]))
        elif kind == 'file':
            import io
            data = io.BytesIO(t.encode('utf-8'))
        got = xmltodict.parse(data, **o)
        want = e.value(o)
        c.expect(list(got) == [e.name], 'the root of %r is %r', t, list(got))
        root = [want] if o['force_list'] and e.name in o['force_list'] else want
        c.expect(got[e.name] == root, 'document %r is read as %r instead of %r', t, got[e.name], root)

        def order(g, w):
            if isinstance(w, dict):
                c.expect([k for k in g if k[0] != '#'] == [k for k in w if k[0] != '#'], 'order of %r', t)
                for k in w:
                    order(g[k], w[k])
            elif isinstance(w, list):
                for x, y in zip(g, w):
                    order(x, y)
        order(got[e.name], root)
        c.hit('xml_read', size)
        c.hit(kind)
        c.hit('mixed', any(x.children and (x.text or x.tail) for x in e.every()))
        c.hit('long', len(t) > 8000)
        c.hit('repeated', any(len({y.name for y in x.children}) < len(x.children) for x in e.every()))
        # by the serializer, where some names are always lists
        for use in rng.sample(['class', 'instance', 'again'], 2):
            so = {'attr_prefix': '@', 'cdata_key': '#text', 'force_list': XmlDeserializer._forceList}
            want = e.value(so)
            if e.name in so['force_list']:
                want = [want]
            if use == 'class':
                got = XmlSerializer.deserialize(t, evaluate=False)
            else:
                s = XmlSerializer() if rng.random() < .5 else XmlSerializer(tag=e.name)
                got = s.deserialize_xml(t, evaluate=False)
                if use == 'again':
                    got = s.deserialize_xml(t, evaluate=False)
                    if s._tag is None:
                        c.equal(s.deserialize_xml('<other_root>1</other_root>', evaluate=False), '1', 'another document')
            c.expect(got == want, 'document %r is deserialized as %r instead of %r', t, got, want)
            c.hit('xml_deserialized')
        # comments
        t = '<r><a><!-- one --><b>1</b></a></r>'
        c.equal(plain(xmltodict.parse(t, process_comments=True)), {'r': {'a': {'#comment': 'one', 'b': '1'}}}, 'comments')
        # entities are not expanded, unless asked
        word = gen.word(rng)
        t = '<!DOCTYPE r [<!ENTITY e "%s"><!ENTITY f "&e;&e;">]><r><a>x&e;&f;y</a><b z="1">&f;</b></r>' % word
        got = [xmltodict.parse(t), {'r': XmlSerializer.deserialize(t, evaluate=False)}]
        for g in got:
            c.equal(plain(g), {'r': {'a': 'xy', 'b': {'@z': '1'}}}, 'entities of %r' % t)
        c.equal(plain(xmltodict.parse(t, disable_entities=False)), {'r': {'a': 'x' + word * 3 + 'y', 'b': {'@z': '1', '#text': word * 2}}},
                'entities of %r' % t)
        c.hit('entities')
        bad = rng.choice(['<a>', '<a></b>', '', 'text', '<a/><b/>', '<a b=1/>', '<a>&nope;</a>' if False else '<a>&</a>'])
        c.raises(lambda: xmltodict.parse(bad), 'reading %r', bad)
        c.hit('refused')

    class Q:
        """an element of a document with namespaces: names are (uri or None, local name)"""
        def __init__(self, rng, uris, scope, depth):
            scope = dict(scope)
            self.decls = {}
            for _ in range(rng.choice([0, 0, 1, 2])):
                p, u = rng.choice(['', 'p', 'q', 'r-s']), rng.choice(uris)
                self.decls[p] = scope[p] = u
            self.scope = scope
            self.prefix, self.local = rng.choice(sorted(scope) + ['']), rng.choice(['a', 'b', 'item', 'n.1'])
            self.uri = scope.get(self.prefix)
            self.attrs = OrderedDict()
            for _ in range(rng.choice([0, 0, 1, 2])):
                p = rng.choice(sorted(set(scope) | {''}))
                self.attrs.setdefault((p, scope[p] if p else None, rng.choice(['x', 'y'])), gen.word(rng))
            # one attribute of a name by namespace
            seen = set()
            for k in list(self.attrs):
                if k[1:] in seen:
                    del self.attrs[k]
                seen.add(k[1:])
            self.children = [Q(rng, uris, scope, depth - 1) for _ in range(rng.randint(0, 3))] if depth else []
            self.text = '' if self.children else rng.choice(['', gen.word(rng)])

        def every(self):
            yield self
            for x in self.children:
                yield from x.every()

        def written(self):
            q = (self.prefix + ':' if self.prefix else '') + self.local
            attrs = [' xmlns%s="%s"' % (p and ':' + p, u) for p, u in self.decls.items()]
            attrs += [' %s="%s"' % ((k[0] and k[0] + ':') + k[2], v) for k, v in self.attrs.items()]
            return '<%s%s>%s</%s>' % (q, ''.join(attrs), self.text + ''.join(x.written() for x in self.children), q)

        def value(self, name):
            """name(prefix, uri, local) is the name expected; None if namespaces are not processed"""
            ret = {}
            if name:
                ret = {'@' + name(*k): v for k, v in self.attrs.items()}
                if self.decls:
                    ret['@xmlns'] = dict(self.decls)
            else:
                ret = {'@xmlns' + (p and ':' + p): u for p, u in self.decls.items()}
                ret.update({'@' + (k[0] and k[0] + ':') + k[2]: v for k, v in self.attrs.items()})
            for x in self.children:
                n, v = x.name(name), x.value(name)
                if n not in ret:
                    ret[n] = v
                elif isinstance(ret[n], list):
                    ret[n].append(v)
                else:
                    ret[n] = [ret[n], v]
            if self.text and not ret:
                return self.text
            if self.text:
                ret['#text'] = self.text
            return ret or ''

        def name(self, name):
            return name(self.prefix, self.uri, self.local) if name else (self.prefix and self.prefix + ':') + self.local

    @run.workload('xml_namespaces', quick=500, thorough=15000)
    def _(c):
        rng = c.rng
        uris = ['http://one.com/', 'urn:two', 'http://three.com/x#']
        e = Q(rng, uris, {}, rng.randint(0, 3))
        every = list(e.every())
        t = e.written()
        c.log('xml %s', t[:300])
        if len(every) >= 3:
            c.sig(t[:300])
        sep = rng.choice([':', ':', '|', '~'])
        c.expect(plain(xmltodict.parse(t)) == {e.name(None): e.value(None)}, 'document %r is read as %r', t, xmltodict.parse(t))

        def full(p, u, l):
            return u + sep + l if u else l
        got = plain(xmltodict.parse(t, process_namespaces=True, namespace_separator=sep))
        c.expect(got == {e.name(full): e.value(full)}, 'document %r is read with its namespaces as %r instead of %r', t, got,
                 {e.name(full): e.value(full)})
        short = {u: rng.choice(['s%i' % i, 's%i' % i, None, '']) for i, u in enumerate(uris) if rng.random() < .7}

        def mapped(p, u, l):
            u = short.get(u, u)
            return u + sep + l if u else l
        names = [(x.uri, x.local) for x in every]
        got = plain(xmltodict.parse(t, process_namespaces=True, namespace_separator=sep, namespaces=short))
        if all(len({n for n in set(k[1:] for k in x.attrs)}) == len({mapped('', *k[1:]) for k in x.attrs}) for x in every):
            c.expect(got == {e.name(mapped): e.value(mapped)}, 'document %r is read with namespaces %r as %r instead of %r', t, short,
                     got, {e.name(mapped): e.value(mapped)})
            c.hit('mapped', len(short))
        so = {'process_namespaces': True, 'namespace_separator': sep, 'force_list': None}
        if rng.random() < .5:
            got = plain(XmlSerializer.deserialize(t, evaluate=False, **so))
        else:
            got = plain(XmlSerializer(**so).deserialize_xml(t, evaluate=False))
        c.expect(got == e.value(full), '%r is deserialized with its namespaces as %r instead of %r', t, got, e.value(full))
        # written with prefixes, and read back, by this parser and by another
        used = dict(zip(uris, rng.sample(['', 'p', 'q', 'r-s'], 3)))

        def tree(depth, root=False):
            u = rng.choice(uris + ([] if '' in used.values() else [None]))
            ret = {'@xmlns': {p: u for u, p in used.items()}} if root else {}
            for _ in range(rng.choice([0, 0, 1, 2])):
                a = rng.choice([u for u in uris if used[u]] + [None])
                ret['@' + full('', a, rng.choice('xy'))] = gen.word(rng)
            if depth:
                for _ in range(rng.randint(0, 3)):
                    n, v = tree(depth - 1)
                    ret[n] = v if n not in ret else ret[n] + [v] if isinstance(ret[n], list) else [ret[n], v]
            elif not ret:
                return full('', u, rng.choice(['a', 'b'])), rng.choice(['', gen.word(rng)])
            return full('', u, rng.choice(['a', 'b'])), ret or ''
        n, v = tree(rng.randint(0, 3), True)
        out = xmltodict.unparse({n: v}, namespaces={u: p for u, p in used.items()}, namespace_separator=sep, pretty=rng.random() < .5)
        got = plain(xmltodict.parse(out, process_namespaces=True, namespace_separator=sep))
        c.expect(got == {n: v}, '%r is written as %r and read back as %r', {n: v}, out, got)

        def et(x):
            ret = {'@' + k.replace('{', '').replace('}', sep): w for k, w in x.attrib.items()}
            for y in x:
                n, w = y.tag.replace('{', '').replace('}', sep), et(y)
                ret[n] = w if n not in ret else ret[n] + [w] if isinstance(ret[n], list) else [ret[n], w]
            return ret or (x.text or '').strip()
        x = ET.fromstring(out.encode('utf-8'))
        got = et(x)
        c.expect(got == ({k: w for k, w in v.items() if k != '@xmlns'} or '') and x.tag.replace('{', '').replace('}', sep) == n,
                 '%r is written as %r', {n: v}, out)
        c.hit('ns_written')
        c.hit('namespaced', len([1 for n in names if n[0]]))
        c.hit('undeclared', len([1 for n in names if not n[0]]))
        c.hit('ns_attributes', len([1 for x in every for k in x.attrs if k[0]]))
        c.hit('redeclared', any(u != v for x in every for y in x.children for p, u in y.decls.items() for v in [x.scope.get(p, u)]))
        c.hit('bare_declaration', any(x.decls and not x.attrs for x in every))

    @run.workload('xml_streamed', quick=150, thorough=5000)
    def _(c):
        rng = c.rng
        names = rng.sample(NAMES, rng.randint(2, 4))
        E.padding = ''
        e = E(rng, 3, names, True)
        for x in e.every():
            if x.children:
                x.text = x.tail = ''
        o = {'attr_prefix': '@', 'cdata_key': '#text', 'force_list': None}
        t = e.written(rng, False)
        if len(list(e.every())) >= 3:
            c.sig(t[:300])
        depth = rng.randint(1, 3)
        want = []

        def visit(x, path):
            path = path + [(x.name, dict(x.attrs) or None)]
            if len(path) == depth:
                attrs, x.attrs = x.attrs, OrderedDict()
                want.append((path, x.value(o) or None))
                x.attrs = attrs
            else:
                for y in x.children:
                    visit(y, path)
        visit(e, [])
        stop = rng.randint(1, len(want)) if want and rng.random() < .3 else 0
        got = []

        def callback(path, item):
            got.append(([(n, dict(a) if a else None) for n, a in path], item))
            return len(got) != stop
        if stop:
            c.raises(lambda: xmltodict.parse(t, item_depth=depth, item_callback=callback), 'interrupted')
            want = want[:stop]
        else:
            xmltodict.parse(t, item_depth=depth, item_callback=callback)
        c.log('streamed %s at %s', t[:300], depth)
        c.expect(got == want, 'items of %r at %s are %r instead of %r', t, depth, got, want)
        c.hit('streamed', len(want))

    @run.workload('xml_written', quick=700, thorough=25000)
    def _(c):
        rng = c.rng
        names = rng.sample(NAMES[:8] + NAMES[8:10], rng.randint(2, 5))
        o = options(rng)
        if o['force_list'] is True:
            o['force_list'] = None
        count = [0]

        def scalar():
            return rng.choice([None, True, False, rng.randint(-99, 10 ** 6), rng.randint(-999, 999) / 8., xtext(rng), xtext(rng)])

        def txt(x):
            return '' if x is None else str(x).lower() if isinstance(x, bool) else str(x)

        def make(depth, root=False):
            """a value and what is read from its text"""
            count[0] += 1
            if not root and (not depth or rng.random() < .4):
                x = scalar()
                return x, txt(x)
            v, w = OrderedDict(), OrderedDict()
            for n in rng.sample(NAMES[:8], rng.choice([0, 0, 1, 3])):
                x = rng.choice([text(rng).replace('\x7f', 'x')[:200], rng.randint(0, 99)])
                v[o['attr_prefix'] + n], w[o['attr_prefix'] + n] = x, str(x)
            x = xtext(rng)
            tail = xtext(rng)
            for n in rng.sample(names, rng.randint(0, len(names))):
                force = o['force_list'] and n in o['force_list']
                if rng.random() < .4:
                    many = [make(depth - 1) for _ in range(rng.randint(0, 3))]
                    v[n] = rng.choice([list, tuple])(m[0] for m in many)
                    if many:
                        w[n] = [m[1] for m in many] if len(many) > 1 or force else many[0][1]
                else:
                    v[n], m = make(depth - 1)
                    w[n] = [m] if force else m
            inner = any(k[:len(o['attr_prefix'])] != o['attr_prefix'] for k in w)
            if x and rng.random() < .5:
                v[o['cdata_key']] = x
                if not w:
                    return v, x
                w[o['cdata_key']] = x
            if tail and inner and rng.random() < .5:
                v['#tail'], w['#tail'] = tail, tail
                c.hit('tails')
            return v, w or ''
        v, want = make(rng.randint(1, 3), True)
        tag = rng.choice(NAMES[:8])
        if o['force_list'] and tag in o['force_list']:
            want = [want]
        wo = {k: o[k] for k in ('attr_prefix', 'cdata_key')}
        if rng.random() < .6:
            wo['pretty'] = True
            wo['indent'] = rng.choice(['\t', '  ', ''])
            wo['newl'] = rng.choice(['\n', '\n\n'])
        wo['short_empty_elements'] = rng.random() < .5
        before = repr(v)
        t = xmltodict.unparse({tag: v}, **wo)
        if count[0] >= 3:
            c.sig(before[:300])
        c.log('xml %s %s', wo, t[:300])
        c.expect(repr(v) == before, 'the value written has been modified')
        # as any reader sees it
        try:
            root = ET.fromstring(t.replace('ns:el', 'ns_el'))
        except ET.ParseError as er:
            c.expect(False, '%r is written as %r: %s', v, t, er)
        c.expect(root.tag == tag, 'root of %r', t)
        c.equal(sum(1 for _ in root.iter()), count_of(want[0] if isinstance(want, list) else want, o), 'number of elements of %r' % t)
        got = xmltodict.parse(t, **o)
        c.expect(got == {tag: want}, '%r is written as %r and read as %r instead of %r', v, t, got, want)
        c.hit('xml_written', count[0])
        c.hit('pretty', 'pretty' in wo)
        c.hit('long', len(t) > 8000)
        # by the serializer
        s = XmlSerializer(tag=tag, **wo) if rng.random() < .5 else None
        if s:
            t2 = s.serialize_xml(v, deserialize=False)
            got = s.deserialize_xml(t2, evaluate=False, force_list=o['force_list'])
        else:
            t2 = XmlSerializer.serialize(v, deserialize=False, tag=tag, **wo)
            got = XmlSerializer.deserialize(t2, evaluate=False, tag=tag, **o)
        c.equal(t2, xmltodict.unparse({tag: v}, **dict(dict(pretty=True, indent='\t', newl='\n'), **wo)), 'text of the serializer')
        c.expect(got == want, '%r is serialized as %r and read as %r', v, t2, got)
        c.hit('xml_serialized')
        # documents have one root
        for bad in ({}, {'a': 1, 'b': 2}, {'a': [1, 2]}):
            c.raises(lambda: xmltodict.unparse(bad), 'writing %r', bad)
        c.hit('refused')

    def count_of(w, o):
        if not isinstance(w, dict):
            return 1
        n = 1
        for k, x in w.items():
            if k.startswith(o['attr_prefix']) or k in (o['cdata_key'], '#tail'):
                continue
            n += sum(count_of(y, o) for y in (x if isinstance(x, list) else [x]))
        return n
