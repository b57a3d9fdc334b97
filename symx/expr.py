"""Term layer of symx.

Floating values are exact reals: a Fraction (concrete), a Python float
(only for +-inf / nan) or a Poly (Laurent polynomial over interned atoms,
kept in normal form, so that polynomial identities are decided here).
Booleans are Python bools or interned B nodes.  Symbolic integers are z3
bit-vectors (BV) or guarded values (GV: disjoint guards over concrete values).
"""
from fractions import Fraction
import math
import z3

F0 = Fraction(0)
F1 = Fraction(1)

# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("idx", "kind", "args", "name", "lb", "strict", "vars")

    def __init__(self, idx, kind, args, name=None):
        self.idx = idx
        self.kind = kind      # var, sqrt, max, abs, ite, poly, i2r
        self.args = args
        self.name = name
        self.lb = None        # constant lower bound or None
        self.strict = False   # True if > lb
        self.vars = None


ATOMS = []
_atom_intern = {}
_poly_intern = {}
_b_intern = {}


def reset():
    ATOMS.clear()
    _atom_intern.clear()
    _poly_intern.clear()
    _b_intern.clear()
    _z3v.clear()
    reset_z3()


def _intern_atom(kind, key, args, name=None):
    k = (kind, key)
    a = _atom_intern.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, args, name)
        ATOMS.append(a)
        _atom_intern[k] = a
        return a, True
    return a, False


class Poly:
    __slots__ = ("t", "h", "_vars", "_lb", "uid")

    def __repr__(self):
        return poly_str(self)


_uid = [0]


def mk_poly(d):
    """d: dict mono->Fraction (nonzero).  Returns Fraction or interned Poly."""
    n = len(d)
    if n == 0:
        return F0
    if n == 1 and () in d:
        return d[()]
    key = frozenset(d.items())
    p = _poly_intern.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.h = hash(key)
        p._vars = None
        p._lb = 0
        _uid[0] += 1
        p.uid = _uid[0]
        _poly_intern[key] = p
    return p


def atom_poly(a, e=1):
    return mk_poly({((a.idx, e),): F1})


def poly_str(p):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in p.t.items():
        s = "*".join(("%s" % atom_str(ATOMS[i])) + ("" if e == 1 else "^%d" % e) for i, e in m)
        out.append(("%s" % c if c != 1 or not m else "") + ("*" if (s and c != 1) else "") + s)
    return " + ".join(out)


def atom_str(a):
    if a.kind == "var":
        return a.name
    if a.kind == "max":
        return "max(" + ", ".join(poly_str(x) for x in a.args) + ")"
    if a.kind == "ite":
        return "ite(%s, %s, %s)" % (b_str(a.args[0]), poly_str(a.args[1]), poly_str(a.args[2]))
    if a.kind == "i2r":
        return "i2r(%s)" % a.args[0]
    return "%s(%s)" % (a.kind, poly_str(a.args[0]))


def is_special(x):
    return type(x) is float


# ------------------------------------------------------------- poly arithmetic
def _terms(x):
    if type(x) is Poly:
        return x.t
    if x == 0:
        return {}
    return {(): x}


def p_add(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a + b
    if ta is Fraction:
        if not a:
            return b
        a, b = b, a
    elif tb is Fraction and not b:
        return a
    A, Bt = a.t, _terms(b)
    if len(A) < len(Bt):
        A, Bt = Bt, A
    d = dict(A)
    for m, c in Bt.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v = v + c
            if v:
                d[m] = v
            else:
                del d[m]
    return mk_poly(d)


def p_scale(a, k):
    if type(a) is Fraction:
        return a * k
    if not k:
        return F0
    if k == 1:
        return a
    return mk_poly({m: c * k for m, c in a.t.items()})


def p_neg(a):
    if type(a) is Fraction:
        return -a
    return mk_poly({m: -c for m, c in a.t.items()})


def p_sub(a, b):
    if a is b:
        return F0
    return p_add(a, p_neg(b))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i]); i += 1
        elif b < a:
            out.append(m2[j]); j += 1
        else:
            if e + f:
                out.append((a, e + f))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def _needs_fix(m):
    for a, e in m:
        if (e > 1 or e < 0) and ATOMS[a].kind == "sqrt":
            return True
    return False


def _fix_sqrt(m, c):
    """normalise exponents of sqrt atoms to 0/1; returns a value"""
    extra = None
    rest = []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "sqrt" and (e > 1 or e < 0):
            q, r = divmod(e, 2)
            if r:
                rest.append((a, 1))
            pw = p_pow(at.args[0], q)
            extra = pw if extra is None else p_mul(extra, pw)
        else:
            rest.append((a, e))
    base = mk_poly({tuple(rest): c})
    return p_mul(base, extra)


MUL_LIMIT = 4000


def p_mul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction:
        if tb is Fraction:
            return a * b
        return p_scale(b, a)
    if tb is Fraction:
        return p_scale(a, b)
    if len(a.t) * len(b.t) > MUL_LIMIT:
        if len(a.t) > len(b.t):
            a = opaque(a)
        else:
            b = opaque(b)
    d = {}
    fix = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            if _needs_fix(m):
                if fix is None:
                    fix = []
                fix.append((m, c))
                continue
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
    r = mk_poly(d)
    if fix:
        for m, c in fix:
            r = p_add(r, _fix_sqrt(m, c))
    return r


def p_pow(p, k):
    if k == 0:
        return F1
    if k < 0:
        return p_pow(p_inv(p), -k)
    r = p
    for _ in range(k - 1):
        r = p_mul(r, p)
    return r


def _lead(p):
    """deterministic leading monomial: smallest in sorted order"""
    return min(p.t)


def opaque(p):
    """wrap a multi-term polynomial as a single atom (scaled to leading coeff 1)"""
    if len(p.t) == 1:
        return p
    c = p.t[_lead(p)]
    q = p_scale(p, 1 / c)
    a, new = _intern_atom("poly", q, (q,))
    if new:
        a.lb, a.strict = p_lb(q)
    return p_scale(atom_poly(a), c)


def p_inv(p):
    if type(p) is Fraction:
        return 1 / p
    if len(p.t) != 1:
        p = opaque(p)
    (m, c), = p.t.items()
    mi = tuple((a, -e) for a, e in m)
    if _needs_fix(mi):
        return _fix_sqrt(mi, 1 / c)
    return mk_poly({mi: 1 / c})


def p_div(a, b):
    if type(b) is Fraction:
        return p_scale(a, 1 / b)
    if a is b:
        return F1
    return p_mul(a, p_inv(b))


# ------------------------------------------------------------- lower bounds
def _mono_lb(m):
    """(lb, strict) of a monomial (coefficient 1), lb in {0} or None; constants -> 1"""
    strict = True
    for a, e in m:
        at = ATOMS[a]
        if e % 2 == 0:
            if not (at.lb is not None and (at.lb > 0 or (at.lb == 0 and at.strict))):
                strict = strict and e < 0
            continue
        if at.lb is None or at.lb < 0:
            return None, False
        if at.lb == 0 and not at.strict and e > 0:
            strict = False
    return F0, strict


def p_lb(p):
    """(constant lower bound or None, strict)"""
    if type(p) is Fraction:
        return p, False
    if p._lb != 0:
        return p._lb
    lb = F0
    strict = False
    for m, c in p.t.items():
        if not m:
            lb = lb + c
            continue
        if c < 0:
            p._lb = (None, False)
            return p._lb
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.lb is None:
                p._lb = (None, False)
                return p._lb
            lb = lb + c * at.lb
            strict = strict or at.strict
            continue
        b, s = _mono_lb(m)
        if b is None:
            p._lb = (None, False)
            return p._lb
        strict = strict or s
    p._lb = (lb, strict)
    return p._lb


def is_nonneg(p):
    b, s = p_lb(p)
    return b is not None and b >= 0


def is_pos(p):
    b, s = p_lb(p)
    return b is not None and (b > 0 or (b == 0 and s))


# ------------------------------------------------------------- builders
def mk_var(name, lb=None, strict=False):
    a, new = _intern_atom("var", name, None, name)
    if new:
        a.lb = lb
        a.strict = strict
    return atom_poly(a)


def mk_sqrt(p):
    if type(p) is float:
        return math.sqrt(p) if p > 0 else float("nan")
    if type(p) is Fraction:
        if p < 0:
            return float("nan")
        n, d = math.isqrt(p.numerator), math.isqrt(p.denominator)
        if n * n == p.numerator and d * d == p.denominator:
            return Fraction(n, d)
        return Fraction(_fsqrt(p))
    q = opaque(p)
    # sqrt(c*m): pull out nothing; atom over q
    a, new = _intern_atom("sqrt", q, (q,))
    if new:
        b, s = p_lb(q)
        a.lb = F0
        a.strict = is_pos(q)
        if b is not None and b > 0:
            a.lb = Fraction(math.isqrt(int(b * 10**16)), 10**8) if b > 0 else F0
            a.strict = a.lb == 0
    return atom_poly(a)


def _fsqrt(p):
    try:
        return math.sqrt(float(p))
    except OverflowError:
        n = math.isqrt(p.numerator // p.denominator)
        return float(n)


def _content(p, fold=None):
    """common positive monomial factor of all terms: returns dict atom->minexp over positive atoms"""
    for m, c in p.t.items():
        d = {a: e for a, e in m}
        if fold is None:
            fold = {a: e for a, e in d.items() if _atom_pos(ATOMS[a])}
        else:
            nf = {}
            for a, e in fold.items():
                f = d.get(a, 0)
                # common factor exponent: min
                k = min(e, f)
                if k:
                    nf[a] = k
            for a, f in d.items():
                if a not in fold and f < 0 and _atom_pos(ATOMS[a]):
                    nf[a] = f
            fold = nf
    return fold or {}


def _atom_pos(at):
    return at.lb is not None and (at.lb > 0 or (at.lb == 0 and at.strict))


def _split_content(ps):
    """ps: list of values (Poly/Fraction).  Pull out a common positive monomial."""
    fold = None
    first = True
    for p in ps:
        if type(p) is Fraction:
            if p == 0:
                continue
            t = mk_poly({(): p})
            if first:
                fold = {}
            else:
                fold = {a: e for a, e in fold.items() if e < 0}
            first = False
            continue
        if first:
            fold = _content(p)
            first = False
        else:
            fold = _content(p, fold)
    if not fold:
        return None, ps
    m = tuple(sorted(fold.items()))
    mono = mk_poly({m: F1})
    mi = mk_poly({tuple((a, -e) for a, e in m): F1})
    # never split sqrt atoms to negative exponents
    for a, e in m:
        if ATOMS[a].kind == "sqrt":
            inv = p_inv(mono)
            return mono, [p_mul(p, inv) for p in ps]
    return mono, [p_mul(p, mi) for p in ps]


def mk_abs(p):
    if type(p) is float:
        return abs(p)
    if type(p) is Fraction:
        return abs(p)
    if is_nonneg(p):
        return p
    if is_nonneg(p_neg(p)):
        return p_neg(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        it = [i for i, (a, e) in enumerate(m) if ATOMS[a].kind == "ite" and e == 1]
        if len(it) == 1:
            at = ATOMS[m[it[0]][0]]
            f = mk_poly({m[:it[0]] + m[it[0] + 1:]: c})
            r = mk_ite(at.args[0], mk_abs(p_mul(f, at.args[1])), mk_abs(p_mul(f, at.args[2])))
            if r is not None:
                return r
    mono, (q,) = _split_content([p])
    if type(q) is Fraction:
        r = abs(q)
    else:
        c = q.t[_lead(q)]
        k = abs(c)
        q = p_scale(q, 1 / c)
        if is_nonneg(q):
            r = p_scale(q, k)
        else:
            a, new = _intern_atom("abs", q, (q,))
            if new:
                a.lb = F0
            r = p_scale(atom_poly(a), k)
    return r if mono is None else p_mul(mono, r)


def _is_atom(p, kind):
    if type(p) is Poly and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == kind:
            return ATOMS[m[0][0]]
    return None


def _max_parts(p):
    """decompose value as k*mono*Max(..) with k>0, mono positive -> list of parts"""
    if type(p) is Poly and len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0:
            mx = [i for i, (a, e) in enumerate(m) if ATOMS[a].kind == "max" and e == 1]
            if len(mx) == 1:
                i = mx[0]
                rest = m[:i] + m[i + 1:]
                if all(_atom_pos(ATOMS[a]) for a, e in rest):
                    f = mk_poly({rest: c})
                    return [p_mul(f, q) for q in ATOMS[m[i][0]].args]
    return [p]


def mk_max(vals):
    parts = []
    for v in vals:
        if type(v) is float:
            if v == math.inf:
                return v
            if v == -math.inf:
                continue
            return v
        parts.extend(_max_parts(v))
    uniq = []
    seen = set()
    cst = None
    for p in parts:
        if type(p) is Fraction:
            cst = p if cst is None else max(cst, p)
        elif id(p) not in seen:
            seen.add(id(p))
            uniq.append(p)
    if cst is not None:
        drop = False
        for p in uniq:
            b, s = p_lb(p)
            if b is not None and b >= cst:
                drop = True
                break
        if not drop:
            uniq = [p for p in uniq if not _ub_le(p, cst)]
        if not drop:
            if not uniq:
                return cst
            uniq.append(cst)
    if len(uniq) == 1:
        return uniq[0]
    # p and -p  -> abs
    ids = {}
    for p in uniq:
        if type(p) is Poly:
            ids[id(p)] = p
    done = set()
    out = []
    for p in uniq:
        if type(p) is Poly:
            if id(p) in done:
                continue
            n = p_neg(p)
            if id(n) in ids and id(n) not in done:
                done.add(id(n)); done.add(id(p))
                out.append(mk_abs(p))
                continue
        out.append(p)
    if len(out) != len(uniq):
        return mk_max(out)
    # dominance by constant difference
    keep = []
    for i, p in enumerate(out):
        dom = False
        for j, q in enumerate(out):
            if i != j:
                d = p_sub(q, p)
                if type(d) is Fraction:
                    if d > 0 or (d == 0 and j < i):
                        dom = True
                        break
                elif len(d.t) <= 3 and is_nonneg(d) and not (is_nonneg(p_neg(d)) and j > i):
                    dom = True
                    break
        if not dom:
            keep.append(p)
    out = keep
    if len(out) == 1:
        return out[0]
    mono, out = _split_content(out)
    out.sort(key=lambda p: (0, p, 0) if type(p) is Fraction else (1, 0, p.uid))
    # rational content: scale so that first poly has |lead| 1
    k = None
    for p in out:
        if type(p) is Poly:
            k = abs(p.t[_lead(p)])
            break
    if k is not None and k != 1:
        out = [p_scale(p, 1 / k) for p in out]
        out.sort(key=lambda p: (0, p, 0) if type(p) is Fraction else (1, 0, p.uid))
    else:
        k = F1
    key = tuple(out)
    a, new = _intern_atom("max", key, key)
    if new:
        lbs = [p_lb(p) for p in out]
        best = None
        for b, s in lbs:
            if b is not None and (best is None or b > best[0] or (b == best[0] and s)):
                best = (b, s)
        if best:
            a.lb, a.strict = best
    r = p_scale(atom_poly(a), k)
    return r if mono is None else p_mul(mono, r)


def _ub_le(p, c):
    b, s = p_lb(p_neg(p))
    return b is not None and -b <= c


def mk_min(vals):
    return f_neg(mk_max([f_neg(v) for v in vals]))


def f_neg(v):
    if type(v) is float:
        return -v
    return p_neg(v)


def mk_ite(c, a, b):
    """float ite"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is Fraction and type(b) is Fraction and a == b):
        return a
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
            return a
        return None  # caller must split
    if c.kind == "not":
        return mk_ite(c.args[0], b, a)
    if c.kind == "cmp" and c.args[1] != "==":
        d = c.args[0]
        diff = p_sub(a, b)
        k = _ratio(diff, d)
        if k is not None:
            # c: d<0 ; a-b = k d
            if k > 0:
                return mk_min([a, b])   # d<0 -> a<b picks a
            return mk_max([a, b])
    # nested ites on the same condition
    a = _assume_simplify(a, c, True)
    b = _assume_simplify(b, c, False)
    if a is b or (type(a) is Fraction and type(b) is Fraction and a == b):
        return a
    at, new = _intern_atom("ite", (c, a, b), (c, a, b))
    if new:
        la, lb_ = p_lb(a), p_lb(b)
        la = _cond_lb(a, c, True, la)
        lb_ = _cond_lb(b, c, False, lb_)
        if la[0] is not None and lb_[0] is not None:
            if la[0] == lb_[0]:
                at.lb, at.strict = la[0], la[1] and lb_[1]
            else:
                at.lb, at.strict = min(la, lb_, key=lambda t: t[0])
    return atom_poly(at)


def _assume_simplify(v, c, val):
    at = None
    if type(v) is Poly and len(v.t) == 1:
        at = _is_atom(v, "ite")
    if at is not None:
        if at.args[0] is c:
            return at.args[1] if val else at.args[2]
    return v


def _cond_lb(v, c, val, lb):
    """lower bound of v given cmp c has truth value val"""
    if lb[0] is not None and (lb[0] > 0 or (lb[0] == 0 and lb[1])):
        return lb
    conds = [(c, val)]
    best = lb
    while conds:
        c, val = conds.pop()
        if c.kind == "not":
            conds.append((c.args[0], not val))
        elif c.kind == "and" and val:
            conds += [(x, True) for x in c.args]
        elif c.kind == "or" and not val:
            conds += [(x, False) for x in c.args]
        elif c.kind == "cmp":
            d, op = c.args
            if op == "==":
                continue
            # val True: d < 0 (or <=0): -d > 0 ;  val False: d >= 0 (or > 0)
            e = p_neg(d) if val else d
            strict = (op == "<") == val
            # v = k*e + const, k>0 ?
            if type(v) is not Poly:
                continue
            k = _ratio_mod_const(v, e)
            if k is not None and k > 0:
                r = p_sub(v, p_scale(e, k))
                if type(r) is Fraction and (best[0] is None or r > best[0] or (r == best[0] and strict)):
                    best = (r, strict)
    return best


def _ratio(a, b):
    """a = k*b ? returns k or None"""
    if type(a) is Fraction or type(b) is Fraction:
        if type(a) is Fraction and type(b) is Fraction and b != 0:
            return a / b if a != 0 else None
        return None
    if len(a.t) != len(b.t):
        return None
    k = None
    for m, c in a.t.items():
        d = b.t.get(m)
        if d is None:
            return None
        r = c / d
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def _ratio_mod_const(a, b):
    ta = {m: c for m, c in a.t.items() if m}
    tb = {m: c for m, c in b.t.items() if m}
    if not ta or not tb:
        return None
    return _ratio(mk_poly(ta), mk_poly(tb))


# ----------------------------------------------------------------- booleans
class B:
    __slots__ = ("kind", "args", "_vars", "uid", "_neg")

    def __repr__(self):
        return b_str(self)


def b_str(b):
    if type(b) is bool:
        return str(b)
    if b.kind == "cmp":
        return "(%s %s 0)" % (poly_str(b.args[0]), b.args[1])
    if b.kind == "z3":
        return "[%s]" % b.args[0]
    if b.kind == "not":
        return "!" + b_str(b.args[0])
    return "(" + (" & " if b.kind == "and" else " | ").join(b_str(x) for x in b.args) + ")"


def _mk_b(kind, key, args):
    k = (kind, key)
    b = _b_intern.get(k)
    if b is None:
        b = B()
        b.kind = kind
        b.args = args
        b._vars = None
        b._neg = None
        _uid[0] += 1
        b.uid = _uid[0]
        _b_intern[k] = b
    return b


def mk_cmp(p, op):
    """p op 0, op in <, <=, ==, >, >="""
    if op == ">":
        return mk_cmp(f_neg(p), "<")
    if op == ">=":
        return mk_cmp(f_neg(p), "<=")
    if type(p) is float:
        if p != p:
            return False
        if op == "<":
            return p < 0
        if op == "<=":
            return p <= 0
        return False
    if type(p) is Fraction:
        return p < 0 if op == "<" else p <= 0 if op == "<=" else p == 0
    # sign analysis
    b, s = p_lb(p)
    if b is not None:
        if b > 0 or (b == 0 and s):
            return False
        if b == 0 and op == "<":
            return False
    n = p_neg(p)
    b, s = p_lb(n)
    if b is not None:
        if b > 0 or (b == 0 and s):
            return op != "=="
        if b == 0 and op == "<=":
            return True
    # remove positive monomial content
    mono, (p,) = _split_content([p])
    if type(p) is Fraction:
        return mk_cmp(p, op)
    if len(p.t) == 1:
        # single monomial: even powers etc.
        pass
    c = p.t[_lead(p)]
    if op == "==":
        p = p_scale(p, 1 / c)
        return _mk_b("cmp", (p, op), (p, op))
    p = p_scale(p, 1 / abs(c))
    # canonical: lead coefficient +1; otherwise express through negation
    if c < 0:
        # p<0  <=>  not(-p <= 0) ; p<=0 <=> not(-p < 0)
        return b_not(mk_cmp_raw(p_neg(p), "<=" if op == "<" else "<"))
    return mk_cmp_raw(p, op)


def mk_cmp_raw(p, op):
    return _mk_b("cmp", (p, op), (p, op))


def b_not(b):
    if type(b) is bool:
        return not b
    if b._neg is None:
        if b.kind == "not":
            b._neg = b.args[0]
        elif b.kind == "and":
            b._neg = b_or([b_not(x) for x in b.args])
        elif b.kind == "or":
            b._neg = b_and([b_not(x) for x in b.args])
        else:
            b._neg = _mk_b("not", b, (b,))
        b._neg._neg = b
    return b._neg


def _nary(kind, bs):
    unit = kind == "and"
    out = []
    seen = set()
    for b in bs:
        if b is unit:
            continue
        if type(b) is bool:
            return b
        for x in (b.args if b.kind == kind else (b,)):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            out.append(x)
    for x in out:
        if x._neg is not None and x._neg.uid in seen:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    # absorption for common factors:  (a&b)|(a&c) -> a&(b|c)
    other = "or" if unit else "and"
    if len(out) == 2:
        s0 = set(x.uid for x in (out[0].args if out[0].kind == other else (out[0],)))
        a1 = out[1].args if out[1].kind == other else (out[1],)
        common = [x for x in a1 if x.uid in s0]
        if common:
            cu = set(x.uid for x in common)
            r0 = [x for x in (out[0].args if out[0].kind == other else (out[0],)) if x.uid not in cu]
            r1 = [x for x in a1 if x.uid not in cu]
            if not r0 or not r1:
                return _nary(other, common)
            inner = _nary(kind, [_nary(other, r0), _nary(other, r1)])
            return _nary(other, common + [inner])
        # a | (!a & b) -> a | b
        for i in (0, 1):
            p, q = out[i], out[1 - i]
            if q.kind == other and p.kind != other:
                np_ = b_not(p)
                if any(x is np_ for x in q.args):
                    rest = _nary(other, [x for x in q.args if x is not np_])
                    return _nary(kind, [p, rest])
    out.sort(key=lambda x: x.uid)
    key = tuple(x.uid for x in out)
    return _mk_b(kind, key, tuple(out))


def b_and(bs):
    return _nary("and", bs)


def b_or(bs):
    return _nary("or", bs)


def b_z3(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return _mk_b("z3", e.get_id(), (e,))


def b_ite(c, a, b):
    if type(c) is bool:
        return a if c else b
    if a is b:
        return a
    return b_or([b_and([c, a]), b_and([b_not(c), b])])


def b_eq(a, b):
    return b_or([b_and([a, b]), b_and([b_not(a), b_not(b)])])


def b_lits(b, out):
    """flatten conjuncts"""
    if type(b) is bool:
        if not b:
            out.append(b)
        return
    if b.kind == "and":
        out.extend(b.args)
    else:
        out.append(b)


# -------------------------------------------------------------- float ops
def f_add(a, b):
    if type(a) is float or type(b) is float:
        x = a if type(a) is float else 0.0
        y = b if type(b) is float else 0.0
        return x + y
    return p_add(a, b)


def f_sub(a, b):
    if type(a) is float or type(b) is float:
        x = a if type(a) is float else 0.0
        y = b if type(b) is float else 0.0
        return x - y
    return p_sub(a, b)


class NeedSplit(Exception):
    def __init__(self, conds):
        self.conds = conds


def sign_split(known, p):
    """returns -1,0,1 for symbolic p under the known-oracle, or raises NeedSplit"""
    lt = mk_cmp(p, "<")
    gt = mk_cmp(p_neg(p), "<")
    eq = b_and([b_not(lt), b_not(gt)]) if True else None
    r = known(lt)
    if r is True:
        return -1
    r2 = known(gt)
    if r2 is True:
        return 1
    if r is False and r2 is False:
        return 0
    raise NeedSplit([lt, gt, eq])


def f_mul(a, b, known=None):
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float:
            return a * b
        s, o = (a, b) if type(a) is float else (b, a)
        if s != s:
            return s
        if type(o) is Fraction:
            return s * (0.0 if o == 0 else (1.0 if o > 0 else -1.0))
        sg = sign_split(known, o)
        return s * float(sg)
    return p_mul(a, b)


def f_cmp(pred, a, b):
    """pred without o/u prefix: eq, ne, lt, le, gt, ge ; returns bool/B.
    NaN handling is done by the caller via prefix."""
    if type(a) is float or type(b) is float:
        x = a if type(a) is float else 0.0
        y = b if type(b) is float else 0.0
        if pred == "eq":
            return x == y
        if pred == "ne":
            return x != y
        if pred == "lt":
            return x < y
        if pred == "le":
            return x <= y
        if pred == "gt":
            return x > y
        return x >= y
    if pred == "lt":
        return mk_cmp(p_sub(a, b), "<")
    if pred == "le":
        return mk_cmp(p_sub(a, b), "<=")
    if pred == "gt":
        return mk_cmp(p_sub(b, a), "<")
    if pred == "ge":
        return mk_cmp(p_sub(b, a), "<=")
    e = mk_cmp(p_sub(a, b), "==")
    return e if pred == "eq" else b_not(e)


# -------------------------------------------------------------- variables
def poly_vars(p):
    if type(p) is not Poly:
        return frozenset()
    if p._vars is None:
        s = set()
        for m in p.t:
            for a, e in m:
                s |= atom_vars(ATOMS[a])
        p._vars = frozenset(s)
    return p._vars


def atom_vars(a):
    if a.vars is None:
        if a.kind == "var":
            a.vars = frozenset((a.name,))
        elif a.kind == "ite":
            a.vars = b_vars(a.args[0]) | poly_vars(a.args[1]) | poly_vars(a.args[2])
        elif a.kind == "i2r":
            a.vars = z3_vars(a.args[0])
        else:
            s = frozenset()
            for p in a.args:
                s |= poly_vars(p)
            a.vars = s
    return a.vars


_z3v = {}


def z3_vars(e):
    i = e.get_id()
    r = _z3v.get(i)
    if r is None:
        s = set()
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(str(x))
            todo.extend(x.children())
        r = (frozenset(s), e)
        _z3v[i] = r
    return r[0]


def b_vars(b):
    if type(b) is bool:
        return frozenset()
    if b._vars is None:
        if b.kind == "cmp":
            b._vars = poly_vars(b.args[0])
        elif b.kind == "z3":
            b._vars = z3_vars(b.args[0])
        else:
            s = frozenset()
            for x in b.args:
                s |= b_vars(x)
            b._vars = s
    return b._vars


# -------------------------------------------------------------- z3 translation
class Z3Ctx:
    """translates terms to z3.  abstract=True replaces every nonlinear monomial by a
    fresh real (sound for unsat answers); abstract=False is exact."""

    def __init__(self, abstract):
        self.abstract = abstract
        self.pz = {}
        self.bz = {}
        self.az = {}     # atom idx -> (z, side)
        self.mz = {}

    def q(self, f):
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)

    def mono(self, m):
        z = self.mz.get(m)
        if z is None:
            z = z3.Real("mono!%d" % len(self.mz))
            self.mz[m] = z
        return z

    def poly(self, p):
        if type(p) is Fraction:
            return self.q(p)
        r = self.pz.get(p.uid)
        if r is None:
            terms = []
            for m, c in p.t.items():
                fs = []
                if c != 1 or not m:
                    fs.append(self.q(c))
                if m:
                    if len(m) == 1 and m[0][1] == 1:
                        fs.append(self.atom(ATOMS[m[0][0]]))
                    elif self.abstract:
                        fs.append(self.mono(m))
                    else:
                        for a, e in m:
                            if e > 0:
                                fs.extend([self.atom(ATOMS[a])] * e)
                            else:
                                fs.extend([z3.Real("inv!%d" % a)] * (-e))
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
            self.pz[p.uid] = r
        return r

    def atom(self, a):
        r = self.az.get(a.idx)
        if r is not None:
            return r[0]
        if a.kind == "var":
            z = z3.Real(a.name)
            s = []
            if a.lb is not None:
                s.append(z > self.q(a.lb) if a.strict else z >= self.q(a.lb))
        elif a.kind == "sqrt":
            z = z3.Real("sqrt!%d" % a.idx)
            q = self.poly(a.args[0])
            s = [z >= 0]
            if not self.abstract:
                s.append(z * z == q)
            if a.lb is not None and a.lb > 0:
                s.append(z >= self.q(a.lb))
            elif a.strict:
                s.append(z > 0)
        elif a.kind == "abs":
            q = self.poly(a.args[0])
            z = z3.Real("abs!%d" % a.idx)
            s = [z >= q, z >= -q, z3.Or(z == q, z == -q)]
        elif a.kind == "max":
            z = z3.Real("max!%d" % a.idx)
            qs = [self.poly(p) for p in a.args]
            s = [z >= q for q in qs] + [z3.Or([z == q for q in qs])]
        elif a.kind == "ite":
            c = self.b(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            z = z3.Real("ite!%d" % a.idx)
            s = [z3.Or(z3.Not(c), z == x), z3.Or(c, z == y)]
            if a.lb is not None:
                s.append(z > self.q(a.lb) if a.strict else z >= self.q(a.lb))
        elif a.kind == "poly":
            z = z3.Real("def!%d" % a.idx)
            s = [z == self.poly(a.args[0])]
        elif a.kind == "i2r":
            z = z3.Real("i2r!%d" % a.idx)
            s = [z == z3.ToReal(z3.BV2Int(a.args[0], is_signed=True))]
        self.az[a.idx] = (z, s)
        return z

    def b(self, b):
        if type(b) is bool:
            return z3.BoolVal(b)
        r = self.bz.get(b.uid)
        if r is None:
            if b.kind == "cmp":
                p, op = b.args
                z = self.poly(p)
                r = z < 0 if op == "<" else z <= 0 if op == "<=" else z == 0
            elif b.kind == "z3":
                r = b.args[0]
            elif b.kind == "not":
                r = z3.Not(self.b(b.args[0]))
            elif b.kind == "and":
                r = z3.And([self.b(x) for x in b.args])
            else:
                r = z3.Or([self.b(x) for x in b.args])
            self.bz[b.uid] = r
        return r

    def query(self, bs):
        """-> (assertions, nonlinear?)"""
        zs = [self.b(b) for b in bs]
        atoms, inv, monos, hasint = collect_atoms(bs)
        for i in inv:
            self.atom(ATOMS[i])
        for a in list(atoms.values()):
            self.atom(a)
            zs.extend(self.az[a.idx][1])
        nonlin = bool(monos) or any(a.kind == "sqrt" for a in atoms.values())
        if self.abstract:
            for m in monos:
                b, s = _mono_lb(m)
                if b is not None:
                    z = self.mono(m)
                    zs.append(z > 0 if s else z >= 0)
        else:
            for i in inv:
                a = ATOMS[i]
                w = z3.Real("inv!%d" % i)
                zs.append(w * self.atom(a) == 1)
                if _atom_pos(a):
                    zs.append(w > 0)
        return zs, nonlin, hasint


def reset_z3():
    global Z, ZA
    Z = Z3Ctx(False)
    ZA = Z3Ctx(True)


reset_z3()


def collect_atoms(bs):
    """all atoms (and inverse uses, nonlinear monomials) reachable from boolean nodes"""
    atoms = {}
    inv = set()
    monos = set()
    hasint = False
    seenp = set()
    seenb = set()
    todo = list(bs)
    while todo:
        x = todo.pop()
        if type(x) is bool or type(x) is Fraction:
            continue
        if type(x) is B:
            if x.uid in seenb:
                continue
            seenb.add(x.uid)
            if x.kind == "cmp":
                todo.append(x.args[0])
            elif x.kind == "z3":
                hasint = True
            else:
                todo.extend(x.args)
        elif type(x) is Poly:
            if x.uid in seenp:
                continue
            seenp.add(x.uid)
            for m in x.t:
                if len(m) > 1 or (m and m[0][1] != 1):
                    monos.add(m)
                for a, e in m:
                    if e < 0:
                        inv.add(a)
                    if a not in atoms:
                        at = ATOMS[a]
                        atoms[a] = at
                        if at.kind == "i2r":
                            hasint = True
                        elif at.kind != "var":
                            todo.extend(at.args)
    return atoms, inv, monos, hasint


# -------------------------------------------------------------- substitution
def subst(bs, env):
    """substitute variables (name->Fraction) in boolean nodes; returns new list.
    Division by zero makes the containing comparison None -> raises ZeroDivisionError."""
    memo_a, memo_p, memo_b = {}, {}, {}

    def sa(a):
        r = memo_a.get(a.idx)
        if r is None:
            if a.kind == "var":
                r = env[a.name] if a.name in env else atom_poly(a)
            elif a.kind == "sqrt":
                r = mk_sqrt(sp(a.args[0]))
                if type(r) is float:
                    raise ZeroDivisionError
            elif a.kind == "abs":
                r = mk_abs(sp(a.args[0]))
            elif a.kind == "max":
                r = mk_max([sp(p) for p in a.args])
            elif a.kind == "ite":
                c = sb(a.args[0])
                if c is True:
                    r = sp(a.args[1])
                elif c is False:
                    r = sp(a.args[2])
                else:
                    r = mk_ite(c, sp(a.args[1]), sp(a.args[2]))
            elif a.kind == "poly":
                r = sp(a.args[0])
            else:
                r = atom_poly(a)
            memo_a[a.idx] = r
        return r

    def sp(p):
        if type(p) is Fraction:
            return p
        r = memo_p.get(p.uid)
        if r is None:
            r = F0
            for m, c in p.t.items():
                t = c
                for a, e in m:
                    v = sa(ATOMS[a])
                    if e < 0:
                        if type(v) is Fraction and v == 0:
                            raise ZeroDivisionError
                        v = p_inv(v)
                        e = -e
                    for _ in range(e):
                        t = p_mul(t, v)
                r = p_add(r, t)
            memo_p[p.uid] = r
        return r

    def sb(b):
        if type(b) is bool:
            return b
        r = memo_b.get(b.uid)
        if r is None:
            if b.kind == "cmp":
                r = mk_cmp(sp(b.args[0]), b.args[1])
            elif b.kind == "z3":
                r = b
            elif b.kind == "not":
                r = b_not(sb(b.args[0]))
            elif b.kind == "and":
                r = True
                parts = []
                for x in b.args:
                    y = sb(x)
                    if y is False:
                        r = False
                        break
                    parts.append(y)
                else:
                    r = b_and(parts)
            else:
                parts = []
                r = None
                for x in b.args:
                    y = sb(x)
                    if y is True:
                        r = True
                        break
                    parts.append(y)
                if r is None:
                    r = b_or(parts)
            memo_b[b.uid] = r
        return r

    return [sb(b) for b in bs]


# -------------------------------------------------------------- symbolic ints
class GV:
    """guarded value: list of (guard, concrete value); guards disjoint and exhaustive under pc"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "GV(" + ", ".join("%s" % (v,) for g, v in self.alts) + ")"


def mk_gv(alts):
    d = {}
    order = []
    for g, v in alts:
        if g is False:
            continue
        if v in d:
            d[v] = b_or([d[v], g])
        else:
            d[v] = g
            order.append(v)
    if len(order) == 1:
        return order[0]
    return GV(tuple((d[v], v) for v in order))


class BV:
    """symbolic bit-vector integer"""
    __slots__ = ("e", "w")

    def __init__(self, e, w):
        self.e = e
        self.w = w

    def __repr__(self):
        return "BV(%s)" % self.e
