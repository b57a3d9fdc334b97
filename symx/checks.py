"""Registry: which jobs decide which property."""
ASSUMPTIONS = [
    'real arithmetic: double operations are encoded over the reals (constants exactly as the compiled doubles), so rounding is outside the claim; integers are bit-precise mathematical integers with overflow checks where C has undefined behaviour',
    'MKL (sparse BLAS, BLAS, PARDISO, RCI CG) is replaced by its specification; the native replay of every counterexample uses the real MKL',
    'printing, the profiler hooks and the clock are stubs; malloc returns fresh memory and succeeds unless the check says otherwise',
    'an assertion counted as unknown (solver time-out) or a job listed as incomplete is not part of the claim',
]
PROPS = {}
JOBS = {}


def prop(pid, level='model_checking', **kw):
    from spec import S
    e = S[pid]
    PROPS[pid] = dict(title=e['title'], level=level, bounds=e['bounds'], outside=e['outside'], **kw)
    JOBS[pid] = []


def job(pid, name, harness, tier='quick', budget=100, **kw):
    j = dict(name=name, harness=harness, tier=tier, budget=budget)
    for k in ('fix', 'cfg', 'build', 'variant', 'tol', 'prio', 'entry', 'validate', 'mem_gb'):
        if k in kw:
            j[k] = kw.pop(k)
    j['params'] = dict(kw.pop('params', {}), **kw)
    JOBS[pid].append(j)


def jobs(pid, tier):
    return [j for j in JOBS[pid] if tier == 'thorough' or j['tier'] == 'quick']


from . import registry  # noqa: E402,F401
