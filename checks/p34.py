# -*- coding: utf-8 -*-
"""P34 - path constraints answer for the file system as it is when the value is evaluated."""
import os
import pathlib
import shutil
import tempfile

from harness import gen


def register(run):
    from ngoschema import types
    from ngoschema.exceptions import ValidationError, InvalidValue
    run.rule = 'a distinct non-trivial case is a history of creations, removals and evaluations in a scratch directory'
    run.require(accepted=710, impossible=90, links=80, refused=850, relative=620)
    KINDS = {
        'exists': (types.PathExists, {'isPathExisting': True}, lambda p: p.exists()),
        'dir': (types.PathDir, {'isPathDir': True}, lambda p: p.is_dir()),
        'file': (types.PathFile, {'isPathFile': True}, lambda p: p.is_file()),
        'direxists': (types.PathDirExists, {'isPathDir': True, 'isPathExisting': True}, lambda p: p.is_dir()),
        'fileexists': (types.PathFileExists, {'isPathFile': True, 'isPathExisting': True}, lambda p: p.is_file()),
        'missing': (None, {'isPathExisting': False}, lambda p: not p.exists()),
        'notdir': (None, {'isPathDir': False}, lambda p: not p.is_dir()),
        'notfile': (None, {'isPathFile': False}, lambda p: not p.is_file()),
        'plain': (types.Path, {}, lambda p: True),
    }

    @run.workload('histories', quick=150)
    def _(c):
        d = os.path.realpath(tempfile.mkdtemp(prefix='verif_p34_'))
        here = os.getcwd()
        try:
            rng = c.rng
            names = ['a', 'b.txt', 'c d', 'e/f', 'e/../a', 'l1', 'l2', 'l1/g']
            subjects = {}
            A = gen.pclass({'properties': {k: dict(v[1], type='path') for k, v in KINDS.items()}}, gen.uid(c))
            for k, (cls, sch, _) in KINDS.items():
                subjects[k] = [gen.build(gen.uid(c, k), dict(sch, type='path')), lambda v, k=k: A(**{k: v})[k]]
                if cls:
                    subjects[k].append(cls())
            trace = []
            for _step in range(14):
                n = rng.choice(names)
                p = pathlib.Path(d) / n
                op = rng.choice(['file', 'dir', 'rm', 'link', 'cd', 'eval', 'eval', 'eval'])
                try:
                    if op == 'rm' and os.path.lexists(str(p)):
                        shutil.rmtree(str(p)) if p.is_dir() and not p.is_symlink() else os.unlink(str(p))
                    elif op == 'file' and not os.path.lexists(str(p)):
                        p.parent.mkdir(exist_ok=True)
                        p.write_text('x')
                    elif op == 'dir' and not os.path.lexists(str(p)):
                        p.mkdir(parents=True)
                    elif op == 'link' and not os.path.lexists(str(p)):
                        # to a file, a directory, another link or nothing
                        os.symlink(os.path.join(d, rng.choice(['a', 'b.txt', 'e', 'l2', 'zz'])), str(p))
                        c.hit('links')
                    elif op == 'cd':
                        os.chdir(rng.choice([q for q in (d, os.path.join(d, 'e'), os.path.join(d, 'l1')) if os.path.isdir(q)]))
                except OSError:
                    # through a file, or a loop of links
                    c.hit('impossible')
                trace.append((op, n))
                c.log(op, n)
                k = rng.choice(sorted(KINDS))
                try:
                    os.getcwd()
                except OSError:
                    # removed
                    os.chdir(d)
                if rng.random() < .4:
                    # relative to the working directory of the moment
                    p = pathlib.Path(os.path.relpath(str(p), os.path.realpath(os.getcwd())) if rng.random() < .5 else n)
                    c.hit('relative')
                raw = rng.choice([str(p), p])
                t = rng.choice(subjects[k])
                if KINDS[k][2](p):
                    c.equal(t(raw), p, 'path type %s of %s', k, n)
                    c.hit('accepted')
                else:
                    c.raises(lambda: t(raw), 'path type %s of %s (%s)', k, n,
                             'dir' if p.is_dir() else 'file' if p.exists() else 'missing',
                             kinds=(ValidationError, InvalidValue))
                    c.hit('refused')
                c.state(k, p.exists(), p.is_dir())
            c.sig(trace)
        finally:
            os.chdir(here)
            shutil.rmtree(d)
