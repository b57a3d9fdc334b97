"""Runs one verification job (one harness, one set of parameters) in its own process."""
import json
import math
import os
import re
import resource
import subprocess
import sys
import time
import traceback
from fractions import Fraction

ENV = dict(os.environ, MKL_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_CBWR='COMPATIBLE', MKL_INTERFACE_LAYER='ILP64',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=78:print_stacktrace=1')


def num(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        try:
            return repr(float(v))
        except OverflowError:
            return '1e308' if v > 0 else '-1e308'
    if isinstance(v, float):
        return 'nan' if v != v else 'inf' if v == math.inf else '-inf' if v == -math.inf else repr(v)
    return str(v)


def input_text(job, params, fix, inputs, asg):
    lines = {}
    for k, v in params.items():
        lines[k] = num(v)
    for k, v in fix.items():
        lines[k] = num(Fraction(v)) if not isinstance(v, float) else num(v)
    for n, kind in inputs.items():
        if n in fix:
            continue
        if kind == 'ext':
            k = asg.get(n + '#k', 0)
            lines[n] = {1: 'inf', 2: '-inf', 3: 'nan'}.get(k) or num(asg.get(n, Fraction(0)))
        elif kind == 'int':
            lines[n] = num(asg.get(n, 0))
        else:
            lines[n] = num(asg.get(n, Fraction(0)))
    return ''.join('%s %s\n' % kv for kv in sorted(lines.items()))


def run_native(exe, path, tol=None, timeout=60):
    env = dict(ENV, SYM_INPUT=path)
    if tol is not None:
        env['SYM_TOL'] = repr(tol)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2))
        out, rc = r.stderr.decode('latin1'), r.returncode
    except subprocess.TimeoutExpired:
        out, rc = '', 'timeout'
    fails = re.findall(r'^CHECK-FAIL (\S+)(.*)$', out, re.M)
    obs = re.findall(r'^OBS (\S+) (\S+)$', out, re.M)
    covers = re.findall(r'^COVER (\S+)$', out, re.M)
    done = re.search(r'^SYM-DONE (\d+)', out, re.M)
    crash = None
    if rc == 'timeout':
        crash = 'timeout'
    elif 'AddressSanitizer' in out or 'runtime error:' in out or (not done) or (isinstance(rc, int) and rc < 0):
        if 'failed to allocate' in out:
            return {'rc': rc, 'fails': [], 'detail': [], 'obs': [], 'covers': [], 'assume_fail': True, 'crash': None, 'tail': out[-500:]}
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)', out)
        crash = m.group(1)[:300] if m else 'terminated with %s' % rc
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', out)
        crash += ''.join(' | %s %s' % f for f in fr[:3])
    return {'rc': rc, 'fails': [f[0] for f in fails], 'detail': [a + b for a, b in fails][:6], 'obs': obs,
            'covers': covers, 'assume_fail': 'ASSUME-FAIL' in out, 'crash': crash, 'tail': out[-1500:] if crash else ''}


def main():
    spec = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (int(spec.get('mem_gb', 6) * (1 << 30)), resource.getrlimit(resource.RLIMIT_AS)[1]))
    sys.setrecursionlimit(200000)
    res = {'name': spec['name'], 'error': None}

    def save():
        tmp = out + '.tmp'
        json.dump(res, open(tmp, 'w'), default=str)
        os.replace(tmp, out)

    from . import build, expr as X
    from .smt import Smt
    from .runtime import HEngine
    from .engine import Unsupported
    h = spec['harness']
    kw = spec.get('build', {})
    variant = spec.get('variant', 'mkl')
    mods = build.load_modules(variant, h, **kw)
    nkw = {k: v for k, v in kw.items() if k in ('extra', 'real_timing', 'skip', 'defs')}
    exe = None
    try:
        exe = build.native(variant, h, **nkw)
    except build.BuildError as e:
        res['native_error'] = str(e)[-1500:]
    cfg = dict(spec.get('cfg', {}))
    fix = {k: (Fraction(v) if isinstance(v, (int, str)) else Fraction(v)) for k, v in spec.get('fix', {}).items()}
    cfg['fix'] = fix
    tol = spec.get('tol', 1e-6)
    rdir = spec['replay_dir']
    os.makedirs(rdir, exist_ok=True)
    nrep = [0]

    def replay(asg, label, E):
        if exe is None:
            return {'verdict': 'none'}
        nrep[0] += 1
        p = os.path.join(rdir, '%s-%d.in' % (spec['name'], nrep[0]))
        open(p, 'w').write(input_text(spec, E.params, fix, E.inputs, asg))
        r = run_native(exe, p, tol)
        v = 'ok'
        if r['assume_fail']:
            v = 'assume'
        elif label == 'memory-safety':
            if r['crash']:
                v = 'violated'
        elif label in r['fails']:
            v = 'violated'
        elif r['crash']:
            v = 'violated'
        if v != 'violated' and not spec.get('keep'):
            os.unlink(p)
            p = None
        return {'verdict': v, 'file': p, 'native': {k: r[k] for k in ('rc', 'fails', 'detail', 'crash')}}

    E = HEngine(mods, Smt(), cfg=cfg, params=spec.get('params', {}), replay=replay)
    budget = spec.get('budget', 100)
    import signal

    class Late(Exception):
        pass

    def alarm(*_):
        raise Late()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(budget) + 1)
    E.deadline = t0 + budget
    try:
        E.main(spec.get('entry', 'harness'))
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Late:
        res['error'] = 'out of its time budget'
    except RecursionError:
        res['error'] = 'recursion'
    except MemoryError:
        res['error'] = 'memory'
    except Exception as e:
        res['error'] = 'internal: %s' % traceback.format_exc()[-1500:]
    signal.alarm(0)
    s = E.smt.st
    res.update({
        'wall': time.time() - t0, 'steps': E.steps, 'paths': E.finished, 'merges': E.nmerge, 'forks': E.npaths,
        'queries': s.queries, 'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown, 'solver_s': s.time,
        'sampled': E.nsampled, 'results': E.results, 'covers': E.covers,
        'mem_errors': [list(map(str, m[:2])) for m in E.mem_errors][:6],
        'violations': [{'label': v['label'], 'replay': v['replay'], 'detail': v.get('detail'),
                        'inputs': {k: num(x) for k, x in v['inputs'].items() if k in E.inputs or '#k' in k}} for v in E.violations],
        'unrepro': [{'label': v['label'], 'replay': v['replay']} for v in E.unrepro][:6],
        'functions': sorted({(n if isinstance(n, str) else n[1]).lstrip('@') for n in E.cf}),
        'params': {k: str(v) for k, v in E.params.items()},
        'symbolic_inputs': sorted(n for n in E.inputs if n not in fix), 'fixed_inputs': {k: num(v) for k, v in fix.items()},
    })
    # translator validation: run finished paths natively on one of their inputs and compare observations
    val = {'tried': 0, 'matched': 0, 'mismatch': []}
    if exe and spec.get('validate', 2):
        for pc, ob, ids in E.ends[:spec.get('validate', 2)]:
            if not ids or not ob:
                continue
            smp = E.pool.s[ids[len(ids) // 2]]
            asg = {}
            for n, kind in E.inputs.items():
                try:
                    asg[n] = E.pool.var(smp, n) if kind != 'int' else smp.env.get(n, 0)
                    if n + '#k' in smp.env:
                        asg[n + '#k'] = smp.env[n + '#k']
                except Exception:
                    pass
            p = os.path.join(rdir, '%s-val%d.in' % (spec['name'], val['tried']))
            open(p, 'w').write(input_text(spec, E.params, fix, E.inputs, asg))
            r = run_native(exe, p, tol)
            val['tried'] += 1
            bad = None
            if r['crash'] or r['assume_fail']:
                bad = 'crash %s assume %s' % (r['crash'], r['assume_fail'])
            else:
                nat = dict(r['obs'])
                for n, v in ob:
                    try:
                        w = E.pool.value(smp, v)
                    except Exception:
                        continue
                    if n not in nat:
                        bad = 'missing %s' % n
                        break
                    x = float(nat[n])
                    if not (x == w or (x != x and w != w) or abs(x - w) <= 1e-5 * (1 + abs(x) + abs(w))):
                        bad = '%s: symbolic %r native %r' % (n, w, x)
                        break
            if bad is None:
                val['matched'] += 1
                os.unlink(p)
            else:
                val['mismatch'].append(bad + ' [%s]' % p)
    res['validation'] = val
    res['native_replays'] = nrep[0]
    res['wall'] = time.time() - t0
    save()


if __name__ == '__main__':
    main()
