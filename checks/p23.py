# -*- coding: utf-8 -*-
"""P23 - files contain what was written and appended, and are read, decoded and described as they are."""
import hashlib
import json
import os
import shutil
import tempfile
from pathlib import Path

from harness import gen

CHARSETS = ['utf-8', 'utf-8', 'latin-1', 'cp1252', 'utf-16-le', 'ascii']
FNAMES = ['a.txt', 'b', 'c d.txt', '\u00e9t\u00e9.json', 'x#1.dat', '.hidden', 'a.b.c', '100%', "it's", 'UPPER', 'a,b;c']
DIRS = ['', '', 'sub', 'sub/deep', 'new dir', 'n1/n2/n3', 'sub.d']


def register(run):
    from ngoschema.protocols.file_loader import FileSaver, FileLoader
    from ngoschema.serializers.file_serializer import FileSerializer
    from ngoschema.serializers.json_serializer import JsonSerializer
    from ngoschema.serializers.yaml_serializer import YamlSerializer
    from ngoschema.serializers.xml_serializer import XmlSerializer
    from ngoschema.models.files import File, FileInfo, Document
    from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri
    run.rule = 'a distinct non-trivial case is a history of at least 5 operations on files, or a decoded file'
    run.assumptions = ['nothing else writes the files', 'appending is only asked on existing files']
    run.require(appended=60, charsets=170, decoded=60, described=90, documents=60, loaded=80, missing=70, near=30,
                new_dirs=110, objects=120, read=90, replaced=210, unchanged=60, undecodable=20, unencodable=30, written=450,
                xml_objects=50)

    def scratch():
        return tempfile.mkdtemp(prefix='p23.')

    def text(rng, charset):
        k = rng.random()
        if k < .1:
            return ''
        n = rng.randint(1, 30) if k < .9 else rng.randint(5000, 70000)
        alphabet = 'abc 019\n\r\t\x00{}[]"\'\\' + {'ascii': '', 'latin-1': '\u00e9\xff\x80', 'cp1252': '\u00e9\u20ac\xff'}.get(
            charset, '\u00e9\u20ac\u4f60\U0001f600\u2028\ufeff')
        return ''.join(rng.choice(alphabet) for _ in range(n))

    def raw(rng):
        return bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 5, 30, 3000])))

    def fits(data, charset):
        try:
            return data.decode(charset)
        except UnicodeDecodeError:
            return None

    @run.workload('histories', quick=260, thorough=9000)
    def _(c):
        rng = c.rng
        root = scratch()
        try:
            history(c, rng, root)
        finally:
            shutil.rmtree(root)

    def history(c, rng, root):
        model, stamp = {}, {}

        def check():
            found = {os.path.join(d, f): Path(d, f).read_bytes() for d, _, fs in os.walk(root) for f in fs}
            c.expect(found.keys() == model.keys(), 'the files are %r instead of %r', sorted(found), sorted(model))
            for f, data in model.items():
                c.expect(found[f] == data, '%s contains %r instead of %r', f, found[f][:300], data[:300])
                if f in stamp:
                    c.expect(os.stat(f).st_mtime_ns == stamp[f], '%s has been written again', f)

        def settle():
            for f in model:
                stamp[f] = rng.randint(1, 10 ** 9) * 10 ** 9
                os.utime(f, ns=(stamp[f], stamp[f]))
        paths = [os.path.join(root, rng.choice(DIRS), rng.choice(FNAMES)) for _ in range(rng.randint(2, 5))]
        for p in rng.sample(paths, rng.randint(0, 2)):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            model[p] = raw(rng) if rng.random() < .5 else text(rng, 'utf-8').encode('utf-8')
            Path(p).write_bytes(model[p])
        savers = []
        for _ in range(2):
            binary, charset = rng.random() < .3, rng.choice(CHARSETS)
            opts = {k: v for k, v in (('binary', binary), ('charset', charset)) if rng.random() < .8}
            savers.append((rng.choice([FileSaver, FileSaver, FileSerializer])(**opts), opts.get('binary', False), opts.get('charset', 'utf-8')))
        loaders = [(FileLoader(binary=b, charset=ch), b, ch) for _, b, ch in savers]
        settle()
        n = rng.randint(5, 12)
        c.sig(tuple(os.path.relpath(p, root) for p in paths), n, rng.random())
        for i in range(n):
            p = rng.choice(paths)
            s, binary, charset = rng.choice(savers)
            kw = {}
            if rng.random() < .2:
                kw['binary'] = binary = rng.random() < .5
            if rng.random() < .2:
                kw['charset'] = charset = rng.choice(CHARSETS)
            arg = rng.choice([p, Path(p), os.path.relpath(p)])
            what = rng.choice(['write', 'write', 'write', 'append', 'read', 'read', 'save', 'same', 'unencodable'])
            value = raw(rng) if binary else text(rng, charset)
            data = value if binary else value.encode(charset)
            old = model.get(p)
            if what in ('same', ) and old is not None:
                value = old if binary else fits(old, charset)
                if value is None:
                    continue
                data = value if binary else value.encode(charset)
            elif what == 'write' and old and rng.random() < .3:
                # nearly the same
                data = rng.choice([old[:-1], old + b'\n', old[:-1] + bytes([old[-1] ^ 1]), old.replace(b'\n', b'\r\n'), old.rstrip()])
                value = data if binary else fits(data, charset)
                if value is None:
                    continue
                c.hit('near')
            c.log('%s %s %s %r', what, os.path.relpath(p, root), kw, value[:60])
            if what == 'append':
                if old is None:
                    continue
                if rng.random() < .4 and type(s) is FileSaver:
                    s.save_file(value, arg, append=True, deserialize=False, **kw)
                else:
                    s.append_file(value, arg, **kw)
                model[p] = old + data
                if data:
                    stamp.pop(p, None)
                else:
                    settle()
                c.hit('appended')
            elif what == 'read':
                if old is None:
                    c.raises(lambda: s.read_file(arg, **kw), 'reading a missing file')
                    c.hit('missing')
                    continue
                want = old if binary else fits(old, charset)
                if want is None:
                    c.raises(lambda: s.read_file(arg, **kw), 'reading %r in %s', old[:60], charset)
                    c.hit('undecodable')
                else:
                    got = s.read_file(arg, **kw)
                    c.expect(got == want, '%s is read %r instead of %r', p, got[:300], want[:300])
                    c.hit('read')
                    x, b2, ch2 = rng.choice(loaders)
                    want = old if b2 else fits(old, ch2)
                    if want is not None:
                        for f in (x.load_file, x.load, x.read_file):
                            got = f(arg)
                            c.expect(got == want, '%s is loaded %r instead of %r', p, got[:300], want[:300])
                        x2 = FileLoader(filepath=arg, binary=b2, charset=ch2)
                        c.expect(x2.load() == want, 'loading the file given')
                        c.hit('loaded')
            elif what == 'unencodable':
                if binary or charset[:3] == 'utf':
                    continue
                bad = 'abc\u4f60' + value
                f = rng.choice(['write_file', 'append_file'] if old is not None else ['write_file'])
                c.raises(lambda: getattr(s, f)(bad, arg, **kw), 'writing %r in %s', bad[:60], charset)
                c.hit('unencodable')
            else:
                if what == 'save' and type(s) is FileSaver:
                    s.save_file(value, arg, deserialize=False, **kw)
                else:
                    s.write_file(value, arg, **kw)
                if old != data:
                    stamp.pop(p, None)
                else:
                    c.hit('unchanged')
                model[p] = data
                c.hit('written')
                c.hit('new_dirs', old is None and len(os.listdir(os.path.dirname(p))) == 1)
                c.hit('replaced', old is not None and old != data)
                c.hit('charsets', not binary and charset != 'utf-8')
            check()
            settle()
            c.state(len(model), what)

    ENCODERS = {'json': JsonSerializer, 'yaml': YamlSerializer}

    @run.workload('decoded', quick=150, thorough=4000)
    def _(c):
        rng = c.rng
        root = scratch()
        try:
            kind = rng.choice(sorted(ENCODERS))
            v = {gen.word(rng): rng.choice([1, 'x\u00e9', None, True, [1, {'k': 'v'}], {'a': []}, 2.5]) for _ in range(rng.randint(0, 5))}
            p = os.path.join(root, 'd', 'f.' + kind)
            s = FileSaver(encoder=ENCODERS[kind])
            s.save_file(v, p, deserialize=False)
            c.sig(kind, repr(v))
            c.log('%s %s', kind, v)
            t = Path(p).read_text(encoding='utf-8')
            c.equal(t, ENCODERS[kind].serialize(v, deserialize=False), 'text of the file')
            c.equal(s.load_file(p), v, 'value loaded by the saver')
            x = FileLoader(encoder=ENCODERS[kind])
            c.equal(x.load_file(p), v, 'value loaded')
            c.equal(x.load(Path(p)), v, 'value loaded')
            c.equal(x.read_file(p), t, 'text read')
            c.hit('decoded')
            # objects
            i = gen.uid(c, 'Conf')
            C = gen.pclass({'type': 'object', 'properties': {
                'n': {'type': 'integer'}, 's': {'type': 'string'}, 'l': {'type': 'array', 'items': {'type': 'string'}},
                'o': {'type': 'object', 'properties': {'m': {'type': 'integer'}}}}}, id=i, name='Conf')
            data = {}
            for k, mk in (('n', lambda: rng.randint(-9, 99)), ('s', lambda: gen.word(rng)), ('l', lambda: [gen.word(rng) for _ in range(2)]),
                          ('o', lambda: {'m': rng.randint(1, 9)})):
                if rng.random() < .7:
                    data[k] = mk()
            o = C(**data)
            s.save_file(o.do_serialize(), p, deserialize=False)
            for x in (FileLoader(encoder=ENCODERS[kind], instanceClass=C).load_file(p),
                      FileLoader(encoder=ENCODERS[kind]).load_file(p, instance_class=C)):
                c.expect(type(x) is C, 'an object of type %r is loaded', type(x))
                c.equal(json.loads(json.dumps(x.do_serialize())), data, 'object loaded')
                c.expect(x == o, '%r is loaded instead of %r', x, o)
                c.hit('objects')
            if data:
                t = ''.join('<l>%s</l>' % x for x in data.get('l', []))
                t += ''.join('<%s>%s</%s>' % (k, data[k], k) for k in ('n', 's') if k in data)
                t += '<o><m>%i</m></o>' % data['o']['m'] if 'o' in data else ''
                Path(p + '.xml').write_text('<Conf>%s</Conf>' % t)
                x = FileLoader(encoder=XmlSerializer, instanceClass=C).load_file(p + '.xml')
                c.expect(x == o, '%r is loaded from XML instead of %r', x, o)
                c.hit('xml_objects')
            bad = p + '.bad'
            Path(bad).write_text('{"a": [1, 2')
            c.raises(lambda: FileLoader(encoder=ENCODERS[kind]).load_file(bad), 'loading a bad file')
            # documents
            i = gen.uid(c, 'doc')
            defs = {'$id': i, '$defs': {'K': {'type': 'object', 'title': gen.word(rng)}}}
            p = os.path.join(root, rng.choice(FNAMES))
            Path(p).write_text(json.dumps(defs))
            d = Document(filepath=p, encoder=ENCODERS[kind])
            c.equal((d.filename, str(d.filepath), str(d.identifier)), (os.path.basename(p), p, p), 'names of the document')
            c.equal(d.contentRaw, json.dumps(defs), 'text of the document')
            c.equal(d.content, defs, 'content of the document')
            c.equal(d.doc_id, i, 'id of the document')
            c.expect(not d.loaded and i not in UriResolver._doc_store, 'the document is loaded')
            d.load()
            c.expect(d.loaded, 'the document is not loaded')
            c.equal(resolve_uri(i + '#/$defs/K/title'), defs['$defs']['K']['title'], 'title in the document')
            d.unload()
            c.expect(not d.loaded and i not in UriResolver._doc_store, 'the document is still loaded')
            defs['$defs']['L'] = {'title': 'new'}
            if rng.random() < .5:
                d.write(json.dumps(defs))
            else:
                t = json.dumps(defs)
                d.write(t[:10])
                d.write(t[10:], append=True)
                d.contentRaw = None
            c.equal(Path(p).read_text(), json.dumps(defs), 'file written')
            d.load()
            c.equal(d.content, defs, 'content of the document loaded again')
            c.equal(resolve_uri(i + '#/$defs/L/title'), 'new', 'title in the document loaded again')
            d.unload()
            c.equal(Document(filepath=p, encoder=ENCODERS[kind]).content, defs, 'content of another document of the file')
            others = sorted(os.listdir(root))
            d.del_file()
            others.remove(os.path.basename(p))
            c.equal(sorted(os.listdir(root)), others, 'files left')
            c.raises(d.del_file, 'deleting again')
            c.hit('documents')
        finally:
            shutil.rmtree(root)

    @run.workload('described', quick=120, thorough=3000)
    def _(c):
        rng = c.rng
        root = scratch()
        try:
            p = os.path.join(root, rng.choice(FNAMES))
            size = rng.choice([0, 1, 1023, 1024, 1025, 65535, 65536, 65537, 131072, 200000, 1 << 20, rng.randint(0, 300000)])
            data = bytes(bytearray(rng.getrandbits(8) for _ in range(1000))) * (size // 1000 + 1)
            data = data[:size]
            if rng.random() < .4:
                # contents ending or beginning with bytes that are easily taken for padding
                pad = rng.choice([b'\0', b'\n', b' ', b'\xff', b'\r\n']) * rng.choice([1, 2, 63, 64, 1000])
                data = data + pad if rng.random() < .7 else pad + data
            Path(p).write_bytes(data)
            f = File(filepath=rng.choice([p, Path(p)]), binary=True)
            info = FileInfo(file=f) if rng.random() < .6 else FileInfo(filepath=p)
            c.sig(size, rng.random())

            def judge(data):
                c.equal(info.sha1, hashlib.sha1(data).hexdigest(), 'sha1')
                c.equal(int(info.contentSize), len(data), 'size')
                n, unit = float(len(data)), 'bytes'
                for u in ('KB', 'MB'):
                    if n >= 1024:
                        n, unit = n / 1024, u
                c.equal(info.contentSizeHuman, '%3.1f %s' % (n, unit), 'size of %i' % len(data))
                t = rng.randint(10 ** 8, 10 ** 9)
                os.utime(p, (t, t))
                c.equal(info.dateModified.timestamp() if callable(info.dateModified.timestamp) else info.dateModified.timestamp,
                        float(t), 'date of modification')
                c.hit('described')
            judge(data)
            # another content
            data = data[:rng.randint(0, len(data))] + b'more' * rng.randint(0, 500)
            Path(p).write_bytes(data)
            info = FileInfo(filepath=p)
            judge(data)
            t = text(rng, 'utf-8')
            Path(p).write_bytes(t.encode('utf-8'))
            c.equal(File(filepath=p).contentRaw, t, 'content')
            b = File(filepath=p, binary=True)
            c.equal(b.contentRaw if isinstance(b.contentRaw, bytes) else b.contentRaw.encode('utf-8'), t.encode('utf-8'), 'content')
            c.equal(File(filepath=p + '.none').contentRaw, None, 'content of a missing file')
        finally:
            shutil.rmtree(root)
