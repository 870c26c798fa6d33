#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
from design_props import D
rd = lambda f: open(os.path.join(HERE, f)).read()
fixed = json.load(open(ROOT + '/known_findings.json'))
bugs = {}
for b in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, b)))
    bugs.setdefault(m['property'], []).append((b, m))
first = dict(l.split(' ', 1) for l in rd('first_missed.txt').split('\n') if l.strip())
not_caught = {'p36-name-expression': 'the workloads of P36 give only literal names'}
out = [rd('design_head.md').rstrip('\n'), '']
for p in PROPS:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    if p.get('na'):
        out += ['Not applicable: ' + p['na'], '']
        continue
    s = open('%s/checks/%s.py' % (ROOT, i.lower())).read()
    wl = [(n, q, t or 'as many as fit') for n, q, t in re.findall(r"run\.workload\('([^']+)', quick=(\d+)(?:, thorough=(\d+))?", s)]
    out += ['* decided by: %s. %s' % (p['technique'], D[i]),
            '* workloads (cases quick/thorough): ' + ', '.join('%s %s/%s' % w for w in wl),
            '* quantified over: ' + p['forall'],
            '* what tests cannot settle: ' + p['why']]
    a = re.search(r"run\.assumptions = \[(.*?)\]\n", s, re.S)
    if a:
        out += ['* assumes: ' + '; '.join(x for x, in re.findall(r"'((?:[^'\\]|\\.)*)'(?=,|\s*\]|$|\s*,)", a.group(1)) and [(x,) for x in re.findall(r"'((?:[^'\\]|\\.)*)'", a.group(1))])]
    f = [x for x in fixed['fixed'] if x.startswith('fixed: property=%s ' % i)]
    out += ['* defects it found, repaired: %i; planted bugs: %i' % (len(f), len(bugs.get(i, []))), '']
out += ['## Planted bugs and what catches them', '',
        'All were confirmed (tests pass, demonstration fails with the change and passes without it) by `tools/mkbug.py`, which then runs the check of '
        'the property. "after" marks those first missed: the check was strengthened as said.', '',
        '| planted bug | needs | caught by |', '|---|---|---|']
for i in sorted(bugs):
    for b, m in bugs[i]:
        if b in not_caught:
            out += ['| %s | %s | not caught: %s |' % (b, m['needs'].replace('|', '/'), not_caught[b])]
            continue
        out += ['| %s | %s | %s%s |' % (b, m['needs'].replace('|', '/'), i, ' after: ' + first[b] if b in first else '')]
out += ['', '## Defects found in the repository', '', 'Repaired, one commit each ("fix:"):', '']
out += ['* ' + x[len('fixed: property='):] for x in fixed['fixed']]
out += ['', 'Recorded and not repaired: %s' % (len(fixed['known']) or 'none.')]
out += ['* %s' % json.dumps(x) for x in fixed['known']]
out += [rd('design_tail.md')]
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
