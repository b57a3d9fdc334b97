#!/usr/bin/env python3-vt
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from spec.py, the job registry and design/*.md."""
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import S              # noqa: E402
from symx import checks         # noqa: E402

TECH = 'symbolic execution of the compiled LLVM IR + SMT (z3), counterexamples replayed natively'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, e in S.items():
        d = dict(id=pid, title=e['title'], statement=e['statement'], quantifier=dict(over=e['over'], text=e['q']),
                 why_tests_cant=e['why'], anchors=dict(files=e['files'], mechanism=[dict(name=a, where=b) for a, b in e['mech']]))
        if e['observe']:
            d['anchors']['observe_at'] = e['observe']
        assert len(e['title']) <= 80, pid
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='sh setup.sh', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified sources of /repo to LLVM IR and natively', source_commits=[]),
         notes='python3-vt run_check.py ID runs one check; see DESIGN.md')
for pid, e in S.items():
    if checks.JOBS.get(pid):
        c = dict(property=pid, quick_cmd='python3-vt run_check.py %s --tier quick' % pid,
                 thorough_cmd='python3-vt run_check.py %s --tier thorough' % pid,
                 technique=TECH, level='model_checking',
                 level_note='Bounded: %s. Bounds: %s. Outside: %s. Real arithmetic; MKL replaced by its specification.' % (e['note'], e['bounds'], e['outside']))
        m['checks'].append(c)
    else:
        m['not_applicable'].append(dict(property=pid, reason=e['na'] or 'no check built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
out = [open(os.path.join(V, 'design', 'head.md')).read(), '\n## Properties and how each is decided\n']
for pid, e in S.items():
    out.append('\n### %s %s\n\n%s\n' % (pid, e['title'], e['statement']))
    js = checks.JOBS.get(pid) or []
    if not js:
        out.append('\n*Not applicable:* %s\n' % (e['na'] or 'no check built yet'))
        continue
    q = [j['name'] for j in js if j['tier'] == 'quick']
    t = [j['name'] for j in js if j['tier'] != 'quick']
    out.append('\n- Anchors: %s\n- Decided by: %s; harness %s.\n- Quantified symbolically: %s.\n- Bounds: %s. Outside: %s.\n- Why tests cannot: %s.\n- Quick jobs: %s.%s\n' % (
        ', '.join('`%s`' % f for f in e['files']), e['note'], ', '.join(sorted({'`%s`' % j['harness'] for j in js})), e['q'], e['bounds'], e['outside'], e['why'],
        ', '.join(q), ' Thorough adds: %s.' % ', '.join(t) if t else ''))
import glob                     # noqa: E402
tail = open(os.path.join(V, 'design', 'tail.md')).read()
kf = json.load(open(os.path.join(V, 'known_findings.json')))
rows = ['| property | commit | what failed |', '|---|---|---|']
for x in kf['fixed']:
    a = x.split(None, 3)
    rows.append('| %s | `%s` | %s |' % (a[1].split('=')[1], a[2], a[3]))
tail = tail.replace('@FIXED@', '\n'.join(rows))
rows = ['| seeded bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m_ = json.load(open(d))
    rows.append('| %s | %s quick | %s | %s |' % (os.path.basename(os.path.dirname(d)), m_['property'], m_['needs'], m_['what_it_breaks']))
out.append(tail.replace('@SEEDS@', '\n'.join(rows)))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
