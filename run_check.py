#!/usr/bin/env python3-vt
"""run_check.py ID [--tier quick|thorough] [--job NAME] [--keep]
Decides one property on /repo's current tree: symbolic execution of the real code + SMT, native replay of
every counterexample.  Exit 0: held on everything explored; 1: VIOLATION line(s) printed."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from symx import build, checks          # noqa: E402

PY = sys.executable


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--job')
    ap.add_argument('--cpus', type=int, default=8)
    ap.add_argument('--total', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = checks.PROPS[a.pid]
    jobs = [j for j in checks.jobs(a.pid, a.tier) if not a.job or j['name'] in a.job.split(',')]
    total = a.total or (780 if a.tier == 'quick' else 3300)
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == a.pid]
    rdir = os.path.join(V, 'evidence', 'replay', a.pid)
    if not a.job:
        shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='chk-', dir=os.environ.get('TMPDIR', '/tmp'))
    results = {}
    skipped = {}
    try:
        # compile once per (variant, harness, build options)
        bad = {}
        seen = set()
        for j in jobs:
            k = (j.get('variant', 'mkl'), j['harness'], json.dumps(j.get('build', {}), sort_keys=True))
            if k in seen:
                continue
            seen.add(k)
            try:
                kw = j.get('build', {})
                build.load_modules(k[0], k[1], **kw)
                build.native(k[0], k[1], **{x: y for x, y in kw.items() if x in ('extra', 'real_timing', 'skip', 'defs')})
            except build.BuildError as e:
                bad[k] = str(e)[-1500:]
        t_build = time.time() - t0
        queue = []
        for j in jobs:
            k = (j.get('variant', 'mkl'), j['harness'], json.dumps(j.get('build', {}), sort_keys=True))
            if k in bad:
                skipped[j['name']] = 'does not build: ' + bad[k]
            else:
                queue.append(j)
        queue.sort(key=lambda j: -j.get('prio', 0))
        running = []
        deadline = t0 + total
        while queue or running:
            while queue and len(running) < a.cpus and time.time() < deadline - 5:
                j = queue.pop(0)
                spec = dict(j, replay_dir=rdir)
                spec['budget'] = min(j.get('budget', 100), deadline - time.time())
                spec.setdefault('cfg', {})
                spec['cfg'] = dict(spec['cfg'], seed=seed)
                sp = os.path.join(tmp, j['name'] + '.json')
                op = os.path.join(tmp, j['name'] + '.out')
                json.dump(spec, open(sp, 'w'))
                lg = open(os.path.join(tmp, j['name'] + '.log'), 'w')
                p = subprocess.Popen([PY, '-m', 'symx.job', sp, op], cwd=V, stdout=lg, stderr=subprocess.STDOUT)
                running.append((j, p, op, time.time() + spec['budget'] + 60, lg.name))
            if queue and time.time() >= deadline - 5:
                for j in queue:
                    skipped[j['name']] = 'out of time'
                queue = []
            time.sleep(0.05)
            nr = []
            for r in running:
                j, p, op, dl, lg = r
                if p.poll() is None:
                    if time.time() > dl:
                        p.kill()
                        p.wait()
                        skipped[j['name']] = 'killed: over its time budget'
                    else:
                        nr.append(r)
                    continue
                if os.path.exists(op):
                    results[j['name']] = json.load(open(op))
                else:
                    skipped[j['name']] = 'no result (rc %s) %s' % (p.returncode, open(lg).read()[-600:])
            running = nr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    nviol = 0
    kf = set()
    lines = []
    for name, r in results.items():
        for v in r['violations']:
            f = v['replay'].get('file')
            hit = None
            for k in known:
                if (k.get('label') in (None, v['label'])) and (k.get('jobs') is None or name in k['jobs']) \
                        and (not k.get('crash') or k['crash'] in str(v['replay'].get('native', {}).get('crash'))):
                    hit = k
                    break
            if hit:
                kf.add(hit['what'])
                continue
            nviol += 1
            lines.append('VIOLATION property=%s replay=%s' % (a.pid, f))
            lines.append('  job %s, assertion %s, %s' % (name, v['label'], v.get('detail') or ''))
            lines.append('  native: %s' % json.dumps(v['replay'].get('native')))
    for w in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, w))
    tot = lambda k: sum(r.get(k) or 0 for r in results.values())
    agg = {'proved': 0, 'trivial': 0, 'unknown': 0, 'violated': 0, 'unrepro': 0}
    labels = {}
    for r in results.values():
        for l, c in r['results'].items():
            for k in agg:
                agg[k] += c[k]
            d = labels.setdefault(l, dict.fromkeys(agg, 0))
            for k in agg:
                d[k] += c[k]
    nval = sum(r['validation']['matched'] for r in results.values())
    uncovered = sorted('%s:%s' % (n, c) for n, r in results.items() for c, v in r['covers'].items() if not v)
    fns = sorted(set(f for r in results.values() for f in r['functions']))
    incomplete = {n: r['error'] for n, r in results.items() if r['error']}
    incomplete.update(skipped)
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': prop['level'],
        'coverage': {
            'states': tot('paths') + tot('forks') + tot('merges'), 'transitions': tot('steps'),
            'traces_validated_against_impl': nval,
            'samples': [{'job': n, 'params': r['params'], 'symbolic_inputs': r['symbolic_inputs'], 'paths': r['paths'], 'queries': r['queries'],
                         'results': r['results']} for n, r in list(results.items())[:6]],
            'counting_rule': 'states: path segments between forks, merges and path ends of the symbolic execution; transitions: IR instructions executed symbolically',
            'bounds': prop.get('bounds', ''), 'outside': prop.get('outside', ''),
            'jobs': len(results), 'jobs_incomplete': incomplete,
            'functions_encoded': fns, 'paths_completed': tot('paths'), 'state_merges': tot('merges'),
            'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
            'solver_s': round(tot('solver_s'), 2), 'feasibility_by_valuation': tot('sampled'),
            'assertions': agg, 'assertion_labels': labels,
            'covers_unreached': uncovered, 'native_replays': tot('native_replays'),
            'unreproduced_candidates': [dict(u, job=n) for n, r in results.items() for u in r['unrepro']][:10],
            'unreplayed_memory_errors': {n: r['mem_errors'] for n, r in results.items() if r['mem_errors'] and not r['violations']},
            'validation_mismatches': {n: r['validation']['mismatch'] for n, r in results.items() if r['validation']['mismatch']},
            'job_table': {n: {'wall': round(r['wall'], 1), 'paths': r['paths'], 'queries': r['queries'], 'unknown': r['unknown'], 'params': r['params'],
                              'symbolic': r['symbolic_inputs'], 'error': r['error']} for n, r in results.items()},
        },
        'assumptions': checks.ASSUMPTIONS + prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', a.pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)
    print('%s %s: %d jobs (%d incomplete), %d paths, assertions %s, %d queries (%d unknown), solver %.0fs, build %.0fs, wall %.0fs, validated %d' % (
        a.pid, a.tier, len(results), len(incomplete), tot('paths'), agg, tot('queries'), tot('unknown'), tot('solver_s'), t_build, time.time() - t0, nval))
    if a.v or a.job:
        for n, r in sorted(results.items()):
            print('  %-28s %6.1fs solver %6.1f paths %d q %d unk %d %s %s' % (n, r['wall'], r['solver_s'], r['paths'], r['queries'], r['unknown'],
                  {l: {k: x for k, x in c.items() if x} for l, c in r['results'].items()} if a.job else {k: sum(c[k] for c in r['results'].values()) for k in agg if sum(c[k] for c in r['results'].values())}, r['error'] or ''))
            if r['validation']['mismatch']:
                print('     MISMATCH', r['validation']['mismatch'])
            for u in r['unrepro'][:3]:
                print('     UNREPRO', u['label'], u['replay'])
            for m in r['mem_errors']:
                print('     MEM', m)
            for c, v in r['covers'].items():
                if not v:
                    print('     UNCOVERED', c)
            if r.get('native_error'):
                print(r['native_error'])
        for n, s in skipped.items():
            print('  skipped', n, s)
    for l in lines:
        print(l)
    if results == {} and jobs:
        print('no job produced a result: %s' % json.dumps(skipped)[:3000])
        sys.exit(2)
    sys.exit(1 if nviol else 0)


if __name__ == '__main__':
    main()
