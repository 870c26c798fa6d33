# -*- coding: utf-8 -*-
"""P41 - file and document models give what their files hold, and follow the file they are of."""
import datetime
import hashlib
import json
import os
import pathlib
import shutil
import tempfile

from harness import gen


def register(run):
    from ngoschema.models.files import Document, File, FileInfo
    from ngoschema.resolvers.uri_resolver import resolve_uri
    from ngoschema.serializers.json_serializer import JsonSerializer
    from ngoschema.serializers.yaml_serializer import YamlSerializer
    run.rule = 'a distinct non-trivial case is a history of at least 6 operations on a file model'
    run.assumptions = ['texts are UTF-8', 'a file rewritten behind the model is read again only once it has to be (file or mode changed, '
                       'unloaded)']
    run.require(contentSize=100, contentSizeHuman=100, contents=380, dateCreated=100, dateModified=100, deleted=20,
                documents_written=60, file=100, loaded=30, malformed=17, missing=50, modes=60, moved=150, moved_infos=110,
                nothing=140, others=120, read_again=30, reads=590, resolved=90, sha1=100, unloaded=60, unresolved=730,
                written=16)

    def human(n):
        for x in ['bytes', 'KB', 'MB', 'GB', 'TB']:
            if n < 1024.:
                return '%3.1f %s' % (n, x)
            n /= 1024.

    class Disk:
        def __init__(self, rng):
            self.dir = pathlib.Path(tempfile.mkdtemp(prefix='verif_p41_')).resolve()
            self.rng = rng
            self.now = {}       # path -> bytes
            self.seen = {}      # path -> every content it had

        def write(self, path, data):
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_bytes(data)
            self.now[path] = data
            self.seen.setdefault(path, set()).add(data)

        def text(self):
            r = self.rng.random()
            if r < .1:
                return ''
            if r < .2:
                return 'x' * self.rng.choice([1023, 1024, 1025, 65535, 65536, 65537, 200000, 1024 * 1024])
            return ' '.join(gen.word(self.rng) for _ in range(self.rng.randint(1, 8))) + self.rng.choice(['', '\n', '\r\n', '\u00e9\u20ac', '\t'])

    def check_content(c, got, allowed, binary, what):
        """allowed: the contents of the file since it was first read"""
        if None in allowed and got is None:
            return
        vals = [a if binary else a.decode('utf-8') for a in allowed if a is not None]
        c.expect(any(type(got) is type(v) and got == v for v in vals), '%s: %r instead of %s', what, str(got)[:80],
                 [str(v)[:80] for v in vals])

    @run.workload('files', quick=150)
    def _(c):
        rng = c.rng
        disk = Disk(rng)
        try:
            paths = [disk.dir / n for n in ['a.txt', 'b.txt', 'sub/c.bin', 'd e.txt']]
            for p in paths[:3]:
                disk.write(p, disk.text().encode('utf-8'))
            missing = paths[3]
            cls = rng.choice([File, File, Document])
            cur = rng.choice(paths[:3])
            binary = rng.random() < .3
            given = rng.choice([cur, str(cur), cur.relative_to(disk.dir)]) if rng.random() < .8 else None
            old = os.getcwd()
            os.chdir(str(disk.dir))
            try:
                kw = {'filepath': given} if given is not None else {}
                if binary or rng.random() < .3:
                    kw['binary'] = binary
                f = cls(**kw)
                others = [cls(filepath=p, binary=rng.random() < .5) for p in paths[:2]]
                cur = cur if given is not None else None
                allowed = {disk.now[cur]} if cur else {None}
                n = rng.randint(6, 14)
                ops = []
                for _i in range(n):
                    op = rng.choice(['read', 'read', 'path', 'path', 'binary', 'rewrite', 'missing', 'write'])
                    ops.append(op)
                    c.log('%s %s %s', op, cur, binary)
                    if op == 'path':
                        new = rng.choice(paths[:3])
                        f.filepath = rng.choice([new, str(new)])
                        if new != cur:
                            allowed = set()
                        cur = new
                        allowed.add(disk.now[cur])
                        c.expect(pathlib.Path(f.filepath).resolve() == cur, 'the path is %s', f.filepath)
                        c.hit('moved')
                    elif op == 'missing' and cls is File:
                        f.filepath = missing
                        cur, allowed = missing, {None}
                        c.hit('missing')
                    elif op == 'binary':
                        binary = not binary
                        f.binary = binary
                        if cur and cur != missing:
                            # read again as it is now, or cached as it was
                            allowed = {disk.now[cur]}
                        c.hit('modes')
                    elif op == 'rewrite':
                        p = rng.choice(paths[:3])
                        disk.write(p, disk.text().encode('utf-8'))
                        if p == cur:
                            allowed = allowed | {disk.now[p]}
                    elif op == 'write' and cls is Document and cur:
                        t = disk.text()
                        append = rng.random() < .4
                        data = t.encode('utf-8')
                        f.write(data if binary else t, append=append)
                        disk.now[cur] = (disk.now[cur] if append else b'') + data
                        disk.seen[cur].add(disk.now[cur])
                        c.equal(cur.read_bytes(), disk.now[cur], 'file written (append %s)', append)
                        allowed = {disk.now[cur]}
                        c.hit('written')
                    got = f.contentRaw if rng.random() < .5 else f['contentRaw']
                    check_content(c, got, allowed, binary, 'content of %s after %s' % (cur, ops))
                    c.hit('reads')
                    if cur is None or cur == missing:
                        c.expect(got is None, 'content without a file: %r', got)
                        c.hit('nothing')
                    c.expect(bool(f.binary) == binary, 'binary')
                c.sig(ops, cls.__name__)
                for p, o in zip(paths, others):
                    c.expect(pathlib.Path(o.filepath).resolve() == p, 'the path of another file')
                    check_content(c, o.contentRaw, disk.seen[p], bool(o.binary), 'content of another file')
                    c.hit('others')
            finally:
                os.chdir(old)
        finally:
            shutil.rmtree(str(disk.dir), ignore_errors=True)

    @run.workload('infos', quick=120)
    def _(c):
        rng = c.rng
        disk = Disk(rng)
        try:
            paths = [disk.dir / n for n in 'abc']
            times = {}
            for p in paths:
                disk.write(p, disk.text().encode('utf-8') if rng.random() < .7 else bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 300))))
                times[p] = rng.randint(10 ** 8, 2 * 10 ** 9)
                os.utime(str(p), (times[p] + 50, times[p]))
            cur = paths[0]
            fi = FileInfo(filepath=rng.choice([cur, str(cur)])) if rng.random() < .5 else FileInfo(file=File(filepath=cur, binary=True))
            if rng.random() < .2:
                fi = Document(filepath=cur, binary=True).file_info
            c.sig([len(disk.now[p]) for p in paths])

            def judge():
                d = disk.now[cur]
                read = {'contentSize': lambda: c.equal(int(fi.contentSize), len(d), 'size of %s', cur.name),
                        'contentSizeHuman': lambda: c.equal(str(fi.contentSizeHuman), human(len(d)), 'size of %s', cur.name),
                        'sha1': lambda: c.equal(str(fi.sha1), hashlib.sha1(d).hexdigest(), 'digest of %s', cur.name),
                        'dateModified': lambda: c.equal(fi.dateModified.timestamp(), float(times[cur]), 'date of %s', cur.name),
                        'dateCreated': lambda: c.expect(abs(fi.dateCreated.timestamp() - os.stat(str(cur)).st_ctime) < .001, 'creation'),
                        'file': lambda: c.expect(pathlib.Path(fi.file.filepath) == cur, 'file')}
                for k in rng.sample(sorted(read), rng.randint(2, len(read))):
                    read[k]()
                    c.hit(k)
            judge()
            for _i in range(rng.randint(1, 4)):
                cur = rng.choice(paths)
                if rng.random() < .5:
                    fi.file.filepath = cur
                else:
                    fi.file = File(filepath=cur, binary=True)
                c.hit('moved_infos')
                judge()
        finally:
            shutil.rmtree(str(disk.dir), ignore_errors=True)

    @run.workload('documents', quick=120)
    def _(c):
        rng = c.rng
        disk = Disk(rng)
        try:
            enc = rng.choice([JsonSerializer, JsonSerializer, YamlSerializer])
            docs = {}
            base = 'http://verif.p41/%i/%i/' % (run.seed, c.index)

            def content(i):
                d = {'x': rng.randint(0, 999), 'l': [gen.word(rng), {'k': rng.choice([None, True, 1.5, 'é'])}]}
                if i:
                    d['$id'] = '%s%i' % (base, i)
                return d

            def put(p, d):
                disk.write(p, json.dumps(d).encode('utf-8'))
                docs[p] = d
            paths = [disk.dir / n for n in ['a.json', 'b.json', 'c.json']]
            for i, p in enumerate(paths):
                put(p, content(i))
            bad = disk.dir / 'bad'
            disk.write(bad, b'{"a": [1, }')
            cur = rng.choice(paths)
            doc = Document(filepath=cur, encoder=enc, **rng.choice([{}, {'author': 'me'}, {'keywords': ['a', 'b']}]))
            c.sig(cur.name, enc.__name__, rng.random())
            loaded = {}
            stale = False
            for _i in range(rng.randint(5, 12)):
                op = rng.choice(['path', 'load', 'unload', 'rewrite', 'write', 'bad', 'read'])
                c.log('%s %s', op, cur.name)
                if op == 'path':
                    cur, stale = rng.choice([p for p in paths if p != cur] or paths), False
                    doc.filepath = cur
                elif op == 'load' and not stale and cur in docs:
                    doc.load()
                    if '$id' in docs[cur]:
                        loaded[docs[cur]['$id']] = docs[cur]
                        c.hit('loaded')
                elif op == 'unload' and cur in docs:
                    doc.unload()
                    loaded.pop(docs[cur].get('$id'), None)
                    stale = False
                    c.hit('unloaded')
                elif op == 'rewrite' and cur in docs:
                    put(cur, content(paths.index(cur)))
                    if rng.random() < .6:
                        doc.unload()
                        loaded.pop(docs[cur].get('$id'), None)
                        c.expect(doc.content == docs[cur], 'content read again: %s instead of %s', doc.content, docs[cur])
                        c.hit('read_again')
                        stale = False
                    else:
                        stale = True
                elif op == 'write' and cur in docs:
                    d = content(paths.index(cur))
                    doc.write(json.dumps(d))
                    disk.now[cur], docs[cur], stale = json.dumps(d).encode('utf-8'), d, False
                    c.equal(cur.read_bytes(), disk.now[cur], 'file written')
                    c.hit('documents_written')
                elif op == 'bad' and rng.random() < .3:
                    doc.filepath, stale = bad, False
                    c.expect(doc.content is None, 'content of a malformed document: %s', doc.content)
                    cur = rng.choice(paths)
                    doc.filepath = cur
                    c.hit('malformed')
                if not stale:
                    c.expect(doc.content == docs[cur], 'content of %s: %s instead of %s', cur.name, doc.content, docs[cur])
                    c.equal(doc.contentRaw, disk.now[cur].decode('utf-8'), 'text of %s', cur.name)
                    want = docs[cur].get('$id')
                    c.expect(doc.doc_id == want, 'identifier of %s: %s instead of %s', cur.name, doc.doc_id, want)
                    c.expect(bool(doc.loaded) == (want in loaded), '%s is loaded: %s', cur.name, doc.loaded)
                    c.hit('contents')
                c.equal(str(doc.identifier), str(cur), 'identifier')
                c.equal(doc.filename, cur.name, 'file name')
                for u in ['%s%i' % (base, i) for i in range(1, 3)]:
                    if u in loaded:
                        c.expect(resolve_uri(u + '#/x') == loaded[u]['x'], 'loaded document %s', u)
                        c.expect(resolve_uri(u) == loaded[u], 'loaded document %s', u)
                        c.hit('resolved')
                    else:
                        c.raises(lambda: resolve_uri(u), 'a document which is not loaded')
                        c.hit('unresolved')
            # deletion is of the file itself
            if rng.random() < .5:
                doc.del_file()
                c.expect(not cur.exists() and all(p.exists() for p in paths if p != cur), 'files after the deletion of %s', cur.name)
                c.raises(lambda: doc.del_file(), 'deletion of a file which is not there', kinds=ValueError)
                c.hit('deleted')
            for u in loaded:
                from ngoschema.resolvers.uri_resolver import UriResolver
                UriResolver.unregister_doc(u)
            c.raises(lambda: Document(filepath=cur, **{gen.word(rng) + '_x': 1}), 'a property documents do not have')
        finally:
            shutil.rmtree(str(disk.dir), ignore_errors=True)
