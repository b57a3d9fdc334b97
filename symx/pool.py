"""Pool of float valuations of the symbolic inputs.  Used only to show that a branch side is
feasible without a solver query (a wrong "feasible" costs an infeasible path, never a verdict)."""
import math
import random
from fractions import Fraction
import z3
from . import expr as X

DEFS = {}          # fresh variable -> (group, index); group: callable(pool, sample) -> list of floats
INT_DOM = {}       # integer variable -> (lo, hi)


def reset():
    DEFS.clear()
    INT_DOM.clear()


class Sample:
    __slots__ = ("env", "pa", "pp", "pb", "rng", "scale", "defs")


class Bad(Exception):
    pass


class Pool:
    def __init__(self, n=24, seed=1):
        self.s = []
        self.rng = random.Random(seed)
        for i in range(n):
            self.new(i, seed)

    def new(self, i, seed=7):
        s = Sample()
        s.env = {}
        s.pa = {}
        s.pp = {}
        s.pb = {}
        s.defs = {}
        s.rng = random.Random(i * 1000003 + seed)
        s.scale = [1.0, 1.0, 3.0, 0.1, 10.0, 1e-3, 100.0, 1e-6, 1e5][i % 9]
        self.s.append(s)
        return len(self.s) - 1

    def add(self, env, base=None):
        k = self.new(len(self.s), 99)
        s = self.s[k]
        if base is not None:
            s.env.update(self.s[base].env)
        s.env.update(env)
        return k

    def mutate(self, base):
        """a copy of sample base with some real inputs changed"""
        r = self.rng
        k = self.new(len(self.s) % 9, r.randrange(1 << 30))
        s, b = self.s[k], self.s[base]
        names = [n for n, v in b.env.items()]
        p = r.choice([0.2, 0.5, 1.0])
        mag = 10.0 ** r.uniform(-5, 3)
        rel = r.random() < 0.4
        for n in names:
            v = b.env[n]
            if type(v) is float and r.random() < p:
                q = r.random()
                if rel:
                    w = v * (1 + r.uniform(-1, 1) * min(mag, 0.5))
                elif q < 0.25:
                    w = -v
                elif q < 0.5:
                    w = v * 10.0 ** r.uniform(-2, 2)
                elif q < 0.6:
                    w = 0.0
                else:
                    w = v + r.uniform(-1, 1) * mag
                a = X._atom_intern.get(('var', n))
                if a is not None and a.lb is not None and w <= a.lb:
                    w = v
                s.env[n] = w
            else:
                s.env[n] = v
        return k

    def var(self, s, name):
        v = s.env.get(name)
        if v is None:
            if name in DEFS:
                g, i = DEFS[name]
                vals = s.defs.get(id(g))
                if vals is None:
                    vals = s.defs[id(g)] = g(self, s)
                return vals[i]
            a = X._atom_intern.get(('var', name))
            r = s.rng
            v = r.choice([0.0, 1.0, -1.0]) if r.random() < 0.15 else r.uniform(-1, 1) * s.scale
            if a is not None and a.lb is not None:
                v = float(a.lb) + abs(v) + (1e-9 if a.strict else 0)
            s.env[name] = v
        return v

    def atom(self, s, i):
        v = s.pa.get(i)
        if v is None:
            a = X.ATOMS[i]
            k = a.kind
            if k == "var":
                v = self.var(s, a.name)
            elif k == "max":
                v = max(self.poly(s, p) for p in a.args)
            elif k == "abs":
                v = abs(self.poly(s, a.args[0]))
            elif k == "ite":
                v = self.poly(s, a.args[1] if self.b(s, a.args[0]) else a.args[2])
            elif k == "sqrt":
                q = self.poly(s, a.args[0])
                if q < 0:
                    raise Bad
                v = math.sqrt(q)
            elif k == "poly":
                v = self.poly(s, a.args[0])
            elif k == "i2r":
                v = float(self.z(s, a.args[0]))
            else:
                raise Bad
            s.pa[i] = v
        return v

    def poly(self, s, p):
        if type(p) is not X.Poly:
            return float(p)
        v = s.pp.get(p.uid)
        if v is None:
            v = 0.0
            for m, c in p.t.items():
                t = float(c)
                for a, e in m:
                    w = self.atom(s, a)
                    if e == 1:
                        t *= w
                    else:
                        if w == 0 and e < 0:
                            raise Bad
                        t *= w ** e
                v += t
            if v != v or v in (math.inf, -math.inf):
                raise Bad
            s.pp[p.uid] = v
        return v

    def z(self, s, e):
        sub = []
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = str(x)
                if z3.is_real(x):
                    if ('var', n) not in X._atom_intern:
                        raise Bad
                    sub.append((x, z3.RealVal(Fraction(self.var(s, n)))))
                    continue
                v = s.env.get(n)
                if v is None:
                    d = INT_DOM.get(n)
                    if d is None:
                        raise Bad
                    v = s.rng.randint(*d)
                    s.env[n] = v
                sub.append((x, z3.BitVecVal(v, x.size()) if z3.is_bv(x) else z3.BoolVal(bool(v))))
            todo.extend(x.children())
        r = z3.simplify(z3.substitute(e, *sub))
        if z3.is_bv_value(r):
            return r.as_signed_long()
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise Bad

    def b(self, s, b):
        if type(b) is bool:
            return b
        v = s.pb.get(b.uid)
        if v is None:
            k = b.kind
            if k == "cmp":
                p = self.poly(s, b.args[0])
                op = b.args[1]
                v = p < 0 if op == "<" else p <= 0 if op == "<=" else abs(p) < 1e-12
            elif k == "z3":
                v = self.z(s, b.args[0])
            elif k == "not":
                v = not self.b(s, b.args[0])
            elif k == "and":
                v = all(self.b(s, x) for x in b.args)
            else:
                v = any(self.b(s, x) for x in b.args)
            s.pb[b.uid] = v
        return v

    def val(self, i, b):
        """True / False / None"""
        try:
            return self.b(self.s[i], b)
        except (Bad, OverflowError, ZeroDivisionError):
            return None

    def value(self, s, v):
        """numeric value of any engine value under sample s"""
        t = type(v)
        if t is float or t is int:
            return float(v)
        if t is bool:
            return float(v)
        if t is X.GV:
            for g, x in v.alts:
                if self.b(s, g):
                    return self.value(s, x)
            raise Bad
        if t is X.BV:
            return float(self.z(s, v.e))
        if t is X.B:
            return float(self.b(s, v))
        return self.poly(s, v)
