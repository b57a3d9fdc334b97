"""Solver layer: slicing, caching, portfolio, model search."""
import time
import random
from fractions import Fraction
import z3
from . import expr as X


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.syntactic = 0


class Smt:
    def __init__(self):
        self.st = Stats()
        self.cache = {}

    # -- slicing -----------------------------------------------------------
    def slice(self, pc, goals):
        vs = set()
        for g in goals:
            vs |= X.b_vars(g)
        rest = list(pc)
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for b in rest:
                bv = X.b_vars(b)
                if not bv.isdisjoint(vs):
                    out.append(b)
                    if not bv <= vs:
                        vs |= bv
                        changed = True
                else:
                    nr.append(b)
            rest = nr
        return out

    def check(self, bs, timeout=5000, want_model=False, abstract=True):
        """-> ('sat'|'unsat'|'unknown', model or None)"""
        lits = []
        for b in bs:
            X.b_lits(b, lits)
        if any(b is False for b in lits):
            self.st.syntactic += 1
            return 'unsat', None
        seen = {}
        for b in lits:
            seen[b.uid] = b
        for b in lits:
            if b._neg is not None and b._neg.uid in seen:
                self.st.syntactic += 1
                return 'unsat', None
        if not seen:
            return 'sat', ({} if want_model else None)
        key = frozenset(seen)
        r = self.cache.get(key)
        if r == 'unsat':
            return r, None
        if not want_model:
            if r is not None and (r != 'unknown'):
                return r, None
            if r == 'unknown' and self.cache.get((key, 't'), 0) >= timeout:
                return r, None
        lits = list(seen.values())
        t0 = time.time()
        self.st.queries += 1
        r, m = self._solve(lits, timeout, want_model, abstract)
        self.st.time += time.time() - t0
        if r == 'sat':
            self.st.sat += 1
        elif r == 'unsat':
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        self.cache[key] = r
        self.cache[(key, 't')] = timeout
        return r, m

    def _solve(self, lits, timeout, want_model, abstract):
        zs, nonlin, hasint = X.ZA.query(lits)
        if not nonlin:
            s = z3.SolverFor('QF_LRA') if not hasint else z3.Solver()
            s.set('timeout', int(timeout))
            s.add(zs)
            r = s.check()
            if r == z3.sat:
                return 'sat', (s.model() if want_model else None)
            return ('unsat' if r == z3.unsat else 'unknown'), None
        if abstract:
            s = z3.SolverFor('QF_LRA') if not hasint else z3.Solver()
            s.set('timeout', int(min(timeout, 3000)))
            s.add(zs)
            if s.check() == z3.unsat:
                return 'unsat', None
        zs, nonlin, hasint = X.Z.query(lits)
        s = z3.Solver()
        s.set('timeout', int(timeout))
        s.add(zs)
        r = s.check()
        if r == z3.sat:
            return 'sat', (s.model() if want_model else None)
        return ('unsat' if r == z3.unsat else 'unknown'), None

    # -- model search with partial concretisation ---------------------------
    def find_model(self, bs, vars_first, timeout=10000, tries=24, rng=None, budget=60.0, pick=None):
        """Search a model of the conjunction bs.  Returns (verdict, {var: value})
        verdict 'sat' with assignment (Fractions), 'unsat' (proved) or 'unknown'."""
        t0 = time.time()
        r, m = self.check(bs, timeout, want_model=True)
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat':
            return 'sat', self.extract(m, bs)
        rng = rng or random.Random(1)
        for k in range(tries):
            if time.time() - t0 > budget:
                break
            env = {}
            for v in vars_first:
                env[v] = pick(v, rng, k) if pick else Fraction(rng.choice([-3, -2, -1, -1, 1, 1, 2, 3, 0, 4]), rng.choice([1, 1, 2]))
            try:
                sb = X.subst(bs, env)
            except ZeroDivisionError:
                continue
            if any(b is False for b in sb):
                continue
            r, m = self.check(sb, min(timeout, 4000), want_model=True)
            if r == 'sat':
                asg = self.extract(m, sb) if m is not None else {}
                asg.update(env)
                return 'sat', asg
        return 'unknown', None

    def extract(self, m, bs):
        out = {}
        if m == {} or m is None:
            return out
        for d in m.decls():
            v = m[d]
            n = d.name()
            if '!' in n and not n.startswith('in!'):
                pass
            if z3.is_bv_value(v):
                out[n] = v.as_signed_long()
            elif z3.is_rational_value(v):
                out[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(30)
                out[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            elif z3.is_true(v) or z3.is_false(v):
                out[n] = 1 if z3.is_true(v) else 0
        return out
