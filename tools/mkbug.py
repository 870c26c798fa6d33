#!/usr/bin/env python3
"""mkbug.py SPEC.py [ids...]: turns bug specs into seeded/<id>/ after confirming, in a scratch copy of /repo, that the
change applies, the stable tests pass, the demo passes without it and fails with it; then says which checks catch it.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# cwd is the repository
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import logging, warnings
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
'''


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(d):
    ids = ' '.join(sorted(set('tests/%s.py::%s' % (s.split('::')[0].split('.')[1], s.split('::')[1]) for s in STABLE)))
    return sh('PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider %s' % (d, ids), d)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    scratch = '/tmp/mkbug.%i' % os.getpid()
    for b in bugs:
        if only and b['id'] not in only:
            continue
        shutil.rmtree(scratch, ignore_errors=True)
        sh('git -C /repo worktree prune; cp -a /repo %s' % scratch, '/')
        sh('git checkout -q -- .', scratch)
        out = os.path.join(ROOT, 'seeded', b['id'])
        tmp = scratch + '.demo'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO)
        open(tmp + '/demo.py', 'w').write(PRE + b['demo'].strip('\n') + '\n')
        rc0, o0 = sh('bash %s/demo.sh' % tmp, scratch)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(scratch, 'ngoschema', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), f, old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        rc, diff = sh('git diff', scratch)
        rct, ot = tests(scratch)
        rc1, o1 = sh('bash %s/demo.sh' % tmp, scratch)
        if rc0 != 0 or rc1 == 0 or rct != 0:
            print(b['id'], 'REJECTED demo-clean=%i demo-bug=%i tests=%i' % (rc0, rc1, rct))
            print((o0 if rc0 else ot if rct else o1)[-800:])
            continue
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(tmp, n), out)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        rcc, oc = sh('VERIF_SEED=1 VERIF_REPO=%s ./run %s' % (scratch, b['prop']), ROOT)
        print(b['id'], 'kept;', b['prop'], {0: 'MISSED', 1: 'caught'}.get(rcc, 'rc%i' % rcc),
              ' '.join(l for l in oc.splitlines() if l.startswith(('what', 'ERROR', 'INCON')))[:170])
        sys.stdout.flush()
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.rmtree(scratch + '.demo', ignore_errors=True)


main()
