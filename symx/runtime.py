"""Harness runtime: builtins seen by the symbolic code, the sym_* API, checks."""
import math
import random
import time
from fractions import Fraction
import z3
from . import expr as X
from . import pool as POOL
from .expr import GV, BV, B, Poly, NeedSplit, F0, F1, mk_gv
from .engine import Engine, Ptr, Fn, UNDEF, PathEnd, MemErr, Unsupported, State

BUILTINS = {}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def cond_of(E, st, v):
    """int/bool value -> boolean condition 'v != 0'"""
    if type(v) in (bool, B):
        return v
    if type(v) is int:
        return v != 0
    if v is UNDEF:
        raise MemErr("condition depends on an uninitialised value")
    return E.icmp(st, 'ne', 32 if not isinstance(v, BV) else v.w, v, 0)


# ------------------------------------------------------------------ memory
def heap_alloc(E, st, n, fill, what):
    n = E.concrete_int(st, n)
    if n < 0 or n > (1 << 40):
        return 0
    if n == 0:  # requests of size zero neither count nor fail
        return E.alloc(st, n, 'heap', what, fill)
    k = st.user.get('allocs', 0)
    st.user['allocs'] = k + 1
    fa = st.user.get('fail_at')
    if fa is not None and k >= fa and (st.user.get('fail_all') or k == fa):
        return 0
    p = E.alloc(st, n, 'heap', what, fill)
    return p


@builtin('malloc')
def b_malloc(E, st, a):
    return heap_alloc(E, st, a[0], None, 'malloc')


@builtin('calloc')
def b_calloc(E, st, a):
    return heap_alloc(E, st, E.concrete_int(st, a[0]) * E.concrete_int(st, a[1]), 0, 'calloc')


@builtin('mkl_malloc', 'MKL_malloc')
def b_mklmalloc(E, st, a):
    if E.concrete_int(st, a[0]) == 0:
        return 0
    p = heap_alloc(E, st, a[0], None, 'mkl_malloc')
    if type(p) is Ptr:
        E.wobj(st, p.o).kind = 'mkl'
    return p


@builtin('mkl_calloc', 'MKL_calloc')
def b_mklcalloc(E, st, a):
    n = E.concrete_int(st, a[0]) * E.concrete_int(st, a[1])
    if n == 0:
        return 0
    p = heap_alloc(E, st, n, 0, 'mkl_calloc')
    if type(p) is Ptr:
        E.wobj(st, p.o).kind = 'mkl'
    return p


@builtin('sym_model_alloc')
def b_modelalloc(E, st, a):
    return E.alloc(st, E.concrete_int(st, a[0]), 'model', 'model', 0)


def do_free(E, st, p, kinds):
    p = E.resolve(st, p)
    if type(p) is GV:
        raise NeedSplit([g for g, x in p.alts])
    if type(p) is int and p == 0:
        return
    if type(p) is not Ptr:
        raise MemErr("free of a bad pointer")
    o = st.mem.get(p.o)
    if o is None or o.kind not in kinds:
        raise MemErr("free of non-matching memory (%s)" % (o.kind if o else '?'))
    if p.off != 0:
        raise MemErr("free of an interior pointer")
    if not o.alive:
        raise MemErr("double free of %s" % o.name)
    w = E.wobj(st, p.o)
    w.alive = False
    w.cells = {}


@builtin('free')
def b_free(E, st, a):
    do_free(E, st, a[0], ('heap',))


@builtin('mkl_free', 'MKL_free')
def b_mklfree(E, st, a):
    do_free(E, st, a[0], ('mkl',))


@builtin('sym_model_free')
def b_modelfree(E, st, a):
    do_free(E, st, a[0], ('model',))


@builtin('realloc')
def b_realloc(E, st, a):
    p = E.resolve(st, a[0])
    if type(p) is int and p == 0:
        return heap_alloc(E, st, a[1], None, 'malloc')
    n = E.concrete_int(st, a[1])
    if type(p) is GV:
        raise NeedSplit([g for g, x in p.alts])
    q = heap_alloc(E, st, n, None, 'malloc')
    if type(q) is Ptr:
        o = E.chk(st, p, 0, False)
        E.memcpy(st, q, Ptr(p.o, 0), min(n, o.size))
        do_free(E, st, p, ('heap',))
    return q


def _resolve_ptr(E, st, p):
    p = E.resolve(st, p)
    if type(p) is GV:
        raise NeedSplit([g for g, x in p.alts])
    if type(p) is Ptr and type(p.off) is not int:
        p = Ptr(p.o, E.concrete_int(st, p.off))
    return p


@builtin('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')
def b_memcpy(E, st, a):
    n = E.concrete_int(st, a[2])
    if n:
        E.memcpy(st, _resolve_ptr(E, st, a[0]), _resolve_ptr(E, st, a[1]), n)
    return a[0]


@builtin('memset', 'llvm.memset')
def b_memset(E, st, a):
    n = E.concrete_int(st, a[2])
    v = E.concrete_int(st, a[1])
    if n == 0:
        return a[0]
    d = _resolve_ptr(E, st, a[0])
    E.chk(st, d, n, True)
    o = E.wobj(st, d.o)
    E.clear_range(st, o, d.off, n)
    q = 0
    v &= 255
    while q < n:
        if (d.off + q) % 8 == 0 and q + 8 <= n:
            o.cells[d.off + q] = (8, int.from_bytes(bytes([v] * 8), 'little', signed=True))
            q += 8
        else:
            o.cells[d.off + q] = (1, v if v < 128 else v - 256)
            q += 1
    return a[0]


# ------------------------------------------------------------------ printing / strings
@builtin('printf', 'puts', 'putchar', 'fprintf', 'fflush', 'fputs', 'fputc', 'fwrite', 'fclose')
def b_print(E, st, a):
    return 0


@builtin('strlen')
def b_strlen(E, st, a):
    return len(E.cstr(st, _resolve_ptr(E, st, a[0])))


@builtin('strcmp')
def b_strcmp(E, st, a):
    x, y = E.cstr(st, _resolve_ptr(E, st, a[0])), E.cstr(st, _resolve_ptr(E, st, a[1]))
    return 0 if x == y else (-1 if x < y else 1)


@builtin('strncmp')
def b_strncmp(E, st, a):
    n = E.concrete_int(st, a[2])
    x, y = E.cstr(st, _resolve_ptr(E, st, a[0]))[:n], E.cstr(st, _resolve_ptr(E, st, a[1]))[:n]
    return 0 if x == y else (-1 if x < y else 1)


@builtin('strcpy')
def b_strcpy(E, st, a):
    E.put_str(st, _resolve_ptr(E, st, a[0]), E.cstr(st, _resolve_ptr(E, st, a[1])))
    return a[0]


@builtin('strncpy')
def b_strncpy(E, st, a):
    n = E.concrete_int(st, a[2])
    s = E.cstr(st, _resolve_ptr(E, st, a[1]))
    d = _resolve_ptr(E, st, a[0])
    s = (s + '\0' * n)[:n]
    for i, c in enumerate(s.encode('latin1')):
        E.store(st, Ptr(d.o, d.off + i), c if c < 128 else c - 256, 1)
    return a[0]


def fmt(E, st, f, args):
    out = []
    i = 0
    k = 0
    while i < len(f):
        c = f[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while f[j] in '-+ #0123456789.lhzqjt':
            j += 1
        conv = f[j]
        spec = f[i:j + 1]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        v = args[k]
        k += 1
        flags = ''.join(ch for ch in spec[1:-1] if ch not in 'lhzqjt')
        if conv == 's':
            out.append(('%' + flags + 's') % E.cstr(st, _resolve_ptr(E, st, v)))
        elif conv in 'diux':
            out.append(('%' + flags + ('d' if conv != 'x' else 'x')) % E.concrete_int(st, v))
        elif conv in 'eEfgG':
            v = E.fval(st, v)
            out.append(('%' + flags + conv) % float(v) if type(v) in (Fraction, float) else '<sym>')
        elif conv == 'c':
            out.append(chr(E.concrete_int(st, v)))
        else:
            raise Unsupported("format " + spec)
    return ''.join(out)


@builtin('snprintf')
def b_snprintf(E, st, a):
    n = E.concrete_int(st, a[1])
    s = fmt(E, st, E.cstr(st, _resolve_ptr(E, st, a[2])), a[3:])
    if n > 0:
        E.put_str(st, _resolve_ptr(E, st, a[0]), s[:n - 1])
    return len(s)


@builtin('sprintf')
def b_sprintf(E, st, a):
    s = fmt(E, st, E.cstr(st, _resolve_ptr(E, st, a[1])), a[2:])
    E.put_str(st, _resolve_ptr(E, st, a[0]), s)
    return len(s)


@builtin('fopen')
def b_fopen(E, st, a):
    return 0


# ------------------------------------------------------------------ math
@builtin('sqrt', 'llvm.sqrt', 'sqrtf')
def b_sqrt(E, st, a):
    return E.fsqrt(st, a[0])


@builtin('fabs', 'llvm.fabs', 'fabsf')
def b_fabs(E, st, a):
    return E.fabs(st, a[0])


@builtin('fmod')
def b_fmod(E, st, a):
    return E.fbin(st, 'frem', a[0], a[1])


@builtin('llvm.fmuladd', 'fma', 'llvm.fma')
def b_fma(E, st, a):
    return E.fbin(st, 'fadd', E.fbin(st, 'fmul', a[0], a[1]), a[2])


def _isnan(v):
    return type(v) is float and v != v


@builtin('fmax', 'llvm.maxnum')
def b_fmax(E, st, a):
    x, y = E.fval(st, a[0]), E.fval(st, a[1])
    if _isnan(x):
        return y
    if _isnan(y):
        return x
    return E.merge_val(E.fcmp(st, 'ogt', x, y), x, y) if type(E.fcmp(st, 'ogt', x, y)) is not bool else (x if E.fcmp(st, 'ogt', x, y) else y)


@builtin('fmin', 'llvm.minnum')
def b_fmin(E, st, a):
    x, y = E.fval(st, a[0]), E.fval(st, a[1])
    if _isnan(x):
        return y
    if _isnan(y):
        return x
    c = E.fcmp(st, 'olt', x, y)
    return E.merge_val(c, x, y) if type(c) is not bool else (x if c else y)


@builtin('llvm.smax')
def b_smax(E, st, a):
    c = E.icmp(st, 'sgt', 64, a[0], a[1])
    return (a[0] if c else a[1]) if type(c) is bool else E.merge_val(c, a[0], a[1])


@builtin('llvm.smin')
def b_smin(E, st, a):
    c = E.icmp(st, 'slt', 64, a[0], a[1])
    return (a[0] if c else a[1]) if type(c) is bool else E.merge_val(c, a[0], a[1])


@builtin('llvm.umax')
def b_umax(E, st, a):
    c = E.icmp(st, 'ugt', 64, a[0], a[1])
    return (a[0] if c else a[1]) if type(c) is bool else E.merge_val(c, a[0], a[1])


@builtin('llvm.umin')
def b_umin(E, st, a):
    c = E.icmp(st, 'ult', 64, a[0], a[1])
    return (a[0] if c else a[1]) if type(c) is bool else E.merge_val(c, a[0], a[1])


@builtin('llvm.abs', 'llabs', 'abs', 'labs')
def b_iabs(E, st, a):
    v = a[0]
    if type(v) is int:
        return abs(v)
    c = E.icmp(st, 'slt', 64, v, 0)
    return E.merge_val(c, E.int_bin(st, 'sub', 64, 0, v), v)


@builtin('isnan', '__isnan')
def b_isnan(E, st, a):
    v = E.fval(st, a[0])
    return 1 if _isnan(v) else 0


@builtin('llvm.is')   # llvm.is.fpclass
def b_fpclass(E, st, a):
    v = E.fval(st, a[0])
    m = E.concrete_int(st, a[1])
    if type(v) is float:
        if v != v:
            return bool(m & 3)
        return bool(m & (0x200 if v > 0 else 4))
    zero = bool(m & 0x60)
    posn = bool(m & 0x100)
    negn = bool(m & 0x8)
    if zero == posn == negn:
        return zero
    raise Unsupported("is.fpclass mask %x" % m)


@builtin('exit', 'abort')
def b_exit(E, st, a):
    raise PathEnd()


# ------------------------------------------------------------------ sym API
@builtin('sym_double')
def b_sdouble(E, st, a):
    n = E.cstr(st, a[0])
    E.inputs.setdefault(n, 'real')
    if n in E.fix:
        return Fraction(E.fix[n])
    return X.mk_var(n)


@builtin('sym_pos')
def b_spos(E, st, a):
    """strictly positive real"""
    n = E.cstr(st, a[0])
    E.inputs.setdefault(n, 'real')
    if n in E.fix:
        return Fraction(E.fix[n])
    v = X.mk_var(n, F0, True)
    return v


@builtin('sym_ext')
def b_sext(E, st, a):
    """finite real, +inf, -inf or NaN"""
    n = E.cstr(st, a[0])
    mask = E.concrete_int(st, a[1]) if len(a) > 1 else 15
    E.inputs.setdefault(n, 'ext')
    k = z3.BitVec(n + '#k', 3)
    POOL.INT_DOM[n + '#k'] = (0, 3)
    alts = [(X.b_z3(k == 0), X.mk_var(n))]
    if mask & 2:
        alts.append((X.b_z3(k == 1), math.inf))
    if mask & 4:
        alts.append((X.b_z3(k == 2), -math.inf))
    if mask & 8:
        alts.append((X.b_z3(k == 3), math.nan))
    st.add(X.b_or([g for g, _ in alts]))
    return GV(tuple(alts)) if len(alts) > 1 else alts[0][1]


@builtin('sym_int')
def b_sint(E, st, a):
    n = E.cstr(st, a[0])
    lo, hi = E.concrete_int(st, a[1]), E.concrete_int(st, a[2])
    E.inputs.setdefault(n, 'int')
    if n in E.fix:
        return int(E.fix[n])
    v = z3.BitVec(n, 64)
    POOL.INT_DOM[n] = (lo, hi)
    if hi - lo <= 8:
        alts = [(X.b_z3(v == k), k) for k in range(lo, hi + 1)]
        st.add(X.b_or([g for g, _ in alts]))
        st.add(X.b_z3(z3.And(v >= lo, v <= hi)))
        return mk_gv(alts)
    st.add(X.b_z3(v >= lo))
    st.add(X.b_z3(v <= hi))
    return BV(v, 64)


@builtin('sym_split')
def b_split(E, st, a):
    """force an integer to be concrete on each path"""
    return E.concrete_int(st, a[0])


@builtin('sym_param')
def b_param(E, st, a):
    n = E.cstr(st, a[0])
    if n not in E.params:
        v = E.concrete_int(st, a[1])
        E.params[n] = v
    return int(E.params[n])


@builtin('sym_paramd')
def b_paramd(E, st, a):
    n = E.cstr(st, a[0])
    if n not in E.params:
        E.params[n] = E.fval(st, a[1])
    v = E.params[n]
    if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
        return v
    return Fraction(v)


@builtin('sym_is_symbolic')
def b_issym(E, st, a):
    return 1


@builtin('sym_assume')
def b_assume(E, st, a):
    c = cond_of(E, st, a[0])
    if c is True:
        return
    if c is False:
        raise PathEnd()
    d = E.decide(st, c)
    if d is False:
        raise PathEnd()
    st.add(c)


@builtin('sym_check')
def b_check(E, st, a):
    c = cond_of(E, st, a[0])
    E.check(st, c, E.cstr(st, a[1]), None)


def _both(E, st, a):
    return E.fval(st, a[0]), E.fval(st, a[1])


@builtin('sym_check_eq')
def b_checkeq(E, st, a):
    x, y = _both(E, st, a)
    if _isnan(x) or _isnan(y):
        c = _isnan(x) and _isnan(y)
        E.check(st, c, E.cstr(st, a[2]), None)
        return
    if type(x) is float or type(y) is float:
        c = type(x) is float and type(y) is float and x == y
        E.check(st, c, E.cstr(st, a[2]), None)
        return
    d = X.p_sub(x, y)
    c = X.mk_cmp(d, '==')
    margins = []
    if type(d) is Poly:
        for m in (Fraction(1), Fraction(1, 100), Fraction(1, 10 ** 5)):
            margins.append(X.b_or([X.mk_cmp(X.p_sub(d, m), '>='), X.mk_cmp(X.p_add(d, m), '<=')]))
    E.check(st, c, E.cstr(st, a[2]), margins)


@builtin('sym_check_le')
def b_checkle(E, st, a):
    x, y = _both(E, st, a)
    if type(x) is float or type(y) is float:
        E.check(st, (not _isnan(x)) and (not _isnan(y)) and X.f_cmp('le', x, y), E.cstr(st, a[2]), None)
        return
    d = X.p_sub(x, y)
    c = X.mk_cmp(d, '<=')
    margins = []
    if type(d) is Poly:
        for m in (Fraction(1), Fraction(1, 100), Fraction(1, 10 ** 5)):
            margins.append(X.mk_cmp(X.p_sub(d, m), '>='))
    E.check(st, c, E.cstr(st, a[2]), margins)


@builtin('sym_check_lt')
def b_checklt(E, st, a):
    x, y = _both(E, st, a)
    E.check(st, (not _isnan(x)) and (not _isnan(y)) and X.f_cmp('lt', x, y), E.cstr(st, a[2]), None)


@builtin('sym_cover')
def b_cover(E, st, a):
    n = E.cstr(st, a[0])
    if E.covers.get(n):
        return
    if E.samples_of(st):
        E.covers[n] = True
        return
    r, _ = E.smt.check(st.pc, 4000)
    if r == 'sat':
        E.covers[n] = True
    else:
        E.covers.setdefault(n, False)
        if r == 'unknown':
            E.covers_unknown.add(n)


@builtin('sym_observe')
def b_observe(E, st, a):
    n = E.cstr(st, a[0])
    v = a[1]
    st.user['obs'] = st.user.get('obs', ()) + ((n, v),)


@builtin('sym_observe_int')
def b_observei(E, st, a):
    n = E.cstr(st, a[0])
    st.user['obs'] = st.user.get('obs', ()) + ((n, a[1]),)


@builtin('sym_fail_at')
def b_failat(E, st, a):
    k = E.concrete_int(st, a[0])
    if k < 0:
        st.user.pop('fail_at', None)
    else:
        st.user['fail_at'] = st.user.get('allocs', 0) + k
    st.user['fail_all'] = E.concrete_int(st, a[1]) if len(a) > 1 else 0


@builtin('sym_alloc_count')
def b_alloccount(E, st, a):
    return st.user.get('allocs', 0)


@builtin('sym_heap_live')
def b_heaplive(E, st, a):
    return sum(1 for o in st.mem.values() if o.alive and o.kind in ('heap', 'mkl'))


@builtin('sym_model_live')
def b_modellive(E, st, a):
    return sum(1 for o in st.mem.values() if o.alive and o.kind == 'model')


@builtin('sym_end')
def b_end(E, st, a):
    E.finish_path(st)
    raise PathEnd()


@builtin('sym_log')
def b_log(E, st, a):
    print("LOG", E.cstr(st, a[0]), a[1] if type(a[1]) is not Poly else X.poly_str(a[1]) if len(str(a[1])) < 4000 else '<big>', flush=True)


@builtin('sym_linsolve')
def b_linsolve(E, st, a):
    """sym_linsolve(n, K, b, x): K dense n*n row-major (symmetric), x := K^-1 b.
    returns 0, or 1 if K is singular (concrete K only)."""
    n = E.concrete_int(st, a[0])
    Kp, bp, xp = (_resolve_ptr(E, st, p) for p in a[1:4])
    K = [[E.fval(st, E.load(st, Ptr(Kp.o, Kp.off + 8 * (i * n + j)), ('double',), 8)) for j in range(n)] for i in range(n)]
    b = [E.fval(st, E.load(st, Ptr(bp.o, bp.off + 8 * i), ('double',), 8)) for i in range(n)]
    for v in b:
        if type(v) is float:
            x = [math.nan] * n
            for i in range(n):
                E.store(st, Ptr(xp.o, xp.off + 8 * i), x[i], 8)
            return 0
    x = linsolve(E, st, n, K, b)
    if x is None:
        return 1
    for i in range(n):
        E.store(st, Ptr(xp.o, xp.off + 8 * i), x[i], 8)
    return 0


def _inv(K):
    n = len(K)
    M = [list(r) + [F1 if i == j else F0 for j in range(n)] for i, r in enumerate(K)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if M[r][c] != 0:
                p = r
                break
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        q = M[c][c]
        M[c] = [v / q for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [u - f * v for u, v in zip(M[r], M[c])]
    return [r[n:] for r in M]


def linsolve(E, st, n, K, b):
    if all(type(v) is Fraction for r in K for v in r):
        key = tuple(tuple(r) for r in K)
        inv = E.inv_cache.get(key, 0)
        if inv == 0:
            inv = _inv(K)
            E.inv_cache[key] = inv
        if inv is None:
            return None
        out = []
        for i in range(n):
            s = F0
            for j in range(n):
                s = X.f_add(s, X.f_mul(inv[i][j], b[j]))
            out.append(s)
        return out
    key = (tuple(tuple(id(v) if type(v) is Poly else v for v in r) for r in K),
           tuple(id(v) if type(v) is Poly else v for v in b))
    mode = E.cfg.get('linsolve', 'fresh')
    if mode == 'cramer' and n <= 4:
        return cramer(n, K, b)
    ent = E.lin_cache.get(key)
    if ent is None:
        k = len(E.lin_cache)
        xs = [X.mk_var("lin!%d_%d" % (k, i)) for i in range(n)]
        facts = []
        for i in range(n):
            s = F0
            for j in range(n):
                s = X.p_add(s, X.p_mul(K[i][j], xs[j]))
            facts.append(X.mk_cmp(X.p_sub(s, b[i]), '=='))
        grp = lin_def(n, K, b)
        for i in range(n):
            POOL.DEFS["lin!%d_%d" % (k, i)] = (grp, i)
        ent = (xs, facts, K, b)
        E.lin_cache[key] = ent
    for f in ent[1]:
        st.add(f)
    return list(ent[0])


def lin_def(n, K, b):
    def g(pool, s):
        import numpy as np
        A = np.array([[pool.poly(s, v) for v in r] for r in K])
        c = np.array([pool.poly(s, v) for v in b])
        try:
            return [float(v) for v in np.linalg.solve(A, c)]
        except np.linalg.LinAlgError:
            raise POOL.Bad
    return g


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = F0
    for j in range(n):
        if type(M[0][j]) is Fraction and M[0][j] == 0:
            continue
        m = [r[:j] + r[j + 1:] for r in M[1:]]
        t = X.f_mul(M[0][j], det(m))
        s = X.f_add(s, t) if j % 2 == 0 else X.f_sub(s, t)
    return s


def cramer(n, K, b):
    D = det(K)
    out = []
    for i in range(n):
        M = [r[:i] + [b[k]] + r[i + 1:] for k, r in enumerate(K)]
        out.append(X.p_div(det(M), D))
    return out


@builtin('sym_inertia')
def b_inertia(E, st, a):
    """number of positive eigenvalues of a concrete symmetric matrix; dflt if symbolic"""
    n = E.concrete_int(st, a[0])
    Kp = _resolve_ptr(E, st, a[1])
    K = [[E.fval(st, E.load(st, Ptr(Kp.o, Kp.off + 8 * (i * n + j)), ('double',), 8)) for j in range(n)] for i in range(n)]
    if any(type(v) is not Fraction for r in K for v in r):
        return a[2]
    # Sylvester via LDL^T with symmetric pivoting (1x1 and 2x2)
    pos = 0
    A = [list(r) for r in K]
    idx = list(range(n))
    while idx:
        p = next((i for i in idx if A[i][i] != 0), None)
        if p is not None:
            d = A[p][p]
            if d > 0:
                pos += 1
            idx.remove(p)
            for i in idx:
                f = A[i][p] / d
                for j in idx:
                    A[i][j] -= f * A[p][j]
            continue
        pr = next(((i, j) for i in idx for j in idx if i < j and A[i][j] != 0), None)
        if pr is None:
            break
        i0, j0 = pr
        pos += 1          # [[0,c],[c,0]] has one positive eigenvalue
        c = A[i0][j0]
        idx.remove(i0)
        idx.remove(j0)
        B_ = {(i, j): A[i][j] for i in idx for j in idx}
        for i in idx:
            for j in idx:
                B_[i, j] -= (A[i][i0] * A[j][j0] + A[i][j0] * A[j][i0]) / c
        for (i, j), v in B_.items():
            A[i][j] = v
    return pos


# ------------------------------------------------------------------ the engine used by checks
class HEngine(Engine):
    def __init__(self, modules, smt, cfg=None, params=None, replay=None, log=None):
        self.builtins_override = set((cfg or {}).get('override_builtins', ()))
        super().__init__(modules, smt, cfg)
        self.builtins = dict(BUILTINS)
        self.params = dict(params or {})
        self.fix = (cfg or {}).get('fix', {})
        self.inputs = {}
        self.inv_cache = {}
        self.lin_cache = {}
        self.covers = {}
        self.covers_unknown = set()
        self.results = {}      # label -> {'proved':n,'trivial':n,'unknown':n,'violated':n,'unrepro':n}
        self.violations = []
        self.unrepro = []
        self.replay = replay   # callable(asg, label) -> dict(verdict=...)
        self.check_timeout = self.cfg.get('check_timeout', 8000)
        self.max_replays = self.cfg.get('max_replays', 6)
        self.rng = random.Random(self.cfg.get('seed', 1))
        self.samples = []
        self.finished = 0
        self.stop_first = self.cfg.get('stop_first', True)
        self.nreplay = {}
        self.ends = []

    def res_(self, label):
        r = self.results.get(label)
        if r is None:
            r = self.results[label] = {'proved': 0, 'trivial': 0, 'unknown': 0, 'violated': 0, 'unrepro': 0}
        return r

    def check(self, st, c, label, margins):
        r = self.res_(label)
        if c is True or (c is not False and st.known(c) is True):
            r['trivial'] += 1
            return
        nc = X.b_not(c)
        pcs = self.smt.slice(st.pc, [nc]) if nc is not True else list(st.pc)
        q = pcs + ([nc] if nc is not True else [])
        v, _ = self.smt.check(q, min(1000, self.check_timeout))
        if v != 'unsat':
            if r['violated'] < 2 and self.nreplay.get(label, 0) < self.max_replays and self.sample_violation(st, nc, label, margins):
                r['violated'] += 1
                v = 'violated'
            elif v == 'unknown' and self.check_timeout > 1000:
                v, _ = self.smt.check(q, self.check_timeout)
        if v == 'unsat':
            r['proved'] += 1
            if c is not False:
                st.add(c)
            else:
                raise PathEnd()
            return
        # candidate violation (or unknown): look for a model and replay it
        if v == 'violated':
            pass
        elif r['violated'] < 2 and self.nreplay.get(label, 0) < self.max_replays:
            got = self.try_violation(st, nc, label, margins, v)
            if got == 'unsat':
                r['proved'] += 1
            elif got == 'violated':
                r['violated'] += 1
            elif got == 'unrepro':
                r['unrepro'] += 1
            else:
                r['unknown'] += 1
        else:
            if v == 'unknown':
                r['unknown'] += 1
            elif r['violated']:
                r['violated'] += 1
            else:
                r['unrepro'] += 1
        if c is False:
            raise PathEnd()
        k = self.decide(st, c)
        if k is False:
            raise PathEnd()
        st.add(c)

    def add_violation(self, label, asg, rep):
        self.violations.append({'label': label, 'inputs': dict(asg), 'replay': rep})
        self.deadline = min(self.deadline, time.time() + 15)

    def sample_violation(self, st, nc, label, margins):
        """counterexample candidates among the valuations already known to satisfy the path condition"""
        ids = list(self.samples_of(st))
        if ids:
            ids += self.jitter(st)
        for m in (margins or [])[:2] + ([nc] if not margins else []):
            hit = [i for i in ids if m is True or self.pool.val(i, m) is True]
            hit.sort(key=lambda i: max([abs(x) for x in self.pool.s[i].env.values() if type(x) is float] or [0]))
            for i in hit[:2]:
                if self.nreplay.get(label, 0) >= self.max_replays:
                    return False
                smp = self.pool.s[i]
                asg = {}
                for n, k in self.inputs.items():
                    try:
                        asg[n] = Fraction(self.pool.var(smp, n)) if k != 'int' else int(smp.env.get(n, 0))
                        if n + '#k' in smp.env:
                            asg[n + '#k'] = smp.env[n + '#k']
                    except (POOL.Bad, ValueError, OverflowError):
                        pass
                try:    # the valuation is a float: let the solver confirm it exactly
                    q = X.subst(list(st.pc) + ([m] if m is not True else []), {k: x for k, x in asg.items() if type(x) is Fraction})
                except ZeroDivisionError:
                    continue
                if any(b is False for b in q) or self.smt.check(q, 3000)[0] != 'sat':
                    continue
                self.nreplay[label] = self.nreplay.get(label, 0) + 1
                rep = self.replay(asg, label, self) if self.replay else {'verdict': 'none'}
                if rep['verdict'] == 'violated':
                    self.add_violation(label, asg, rep)
                    return True
        return False

    def bounded(self, inputs, lim):
        out = []
        for n, k in inputs.items():
            if k in ('real', 'ext') and n not in self.fix:
                v = X.mk_var(n)
                out.append(X.mk_cmp(X.p_sub(v, Fraction(lim)), '<='))
                out.append(X.mk_cmp(X.p_add(v, Fraction(lim)), '>='))
        return out

    def try_violation(self, st, nc, label, margins, v):
        ncl = [nc] if nc is not True else []
        base = list(st.pc)
        reals = [n for n, k in self.inputs.items() if k in ('real', 'ext') and n not in self.fix]
        seen_sat = False
        t0 = time.time()
        budget = self.cfg.get('viol_budget', 60)
        attempts = []
        for m in (margins or []):
            attempts.append(([m] if m is not True else [], 1000))
            attempts.append(([m] if m is not True else [], None))
        attempts.append((ncl, 1000))
        attempts.append((ncl, None))
        for goal, lim in attempts:
            if self.nreplay.get(label, 0) >= self.max_replays or time.time() - t0 > budget:
                break
            bs = base + goal + (self.bounded(self.inputs, lim) if lim else [])
            verdict, asg = self.smt.find_model(bs, reals, timeout=self.check_timeout, rng=self.rng, budget=min(20, budget), tries=12)
            if verdict == 'unsat':
                if goal is ncl and lim is None:
                    return 'unsat'
                continue
            if verdict != 'sat':
                continue
            seen_sat = True
            asg = self.round_model(bs, asg)
            self.nreplay[label] = self.nreplay.get(label, 0) + 1
            rep = self.replay(asg, label, self) if self.replay else {'verdict': 'none'}
            if rep['verdict'] == 'violated':
                self.add_violation(label, asg, rep)
                return 'violated'
            self.unrepro.append({'label': label, 'inputs': {k: str(x) for k, x in asg.items()}, 'replay': rep})
        return 'unrepro' if seen_sat else ('unknown' if v != 'sat' else 'unrepro')

    def round_model(self, bs, asg):
        """prefer values exactly representable as doubles"""
        ok = all(k not in asg or not isinstance(asg[k], Fraction) or Fraction(float(asg[k])) == asg[k]
                 for k in self.inputs)
        if ok:
            return asg
        for bits in (4, 10, 20, 40):
            a2 = dict(asg)
            for k in self.inputs:
                if isinstance(a2.get(k), Fraction):
                    a2[k] = Fraction(round(a2[k] * (1 << bits)), 1 << bits)
            env = {k: x for k, x in a2.items() if self.inputs.get(k) in ('real', 'ext') and isinstance(x, Fraction)}
            try:
                sb = X.subst(bs, env)
            except ZeroDivisionError:
                continue
            if any(b is False for b in sb):
                continue
            r, m = self.smt.check(sb, 2000, want_model=True)
            if r == 'sat':
                a3 = self.smt.extract(m, sb) if m is not None else {}
                a4 = dict(a2)
                a4.update({k: x for k, x in a3.items() if k not in env})
                return a4
        return asg

    def on_memerr(self, st, msg):
        where = " < ".join(str(f.fn.name if isinstance(f.fn.name, str) else f.fn.name[1]) for f in reversed(st.frames[-6:]))
        label = 'memory-safety'
        r = self.res_(label)
        v, m = self.smt.check(st.pc, 10000)
        if v == 'unsat':
            return
        if self.nreplay.get(label, 0) < self.max_replays and r['violated'] < 2:
            got = self.try_violation(st, True, label, None, v)
            r['violated' if got == 'violated' else 'unrepro' if got == 'unrepro' else 'unknown'] += 1
            if got == 'violated':
                self.violations[-1]['detail'] = msg + " in " + where
        elif r['violated']:
            r['violated'] += 1
        self.mem_errors.append((msg, where))

    def finish_path(self, st):
        self.finished += 1
        if 'obs' in st.user or True:
            if len(self.ends) < self.cfg.get('max_ends', 3):
                self.ends.append((list(st.pc), st.user.get('obs', ()), self.samples_of(st)))

    def main(self, fname='harness'):
        st = self.st0.fork()
        self.push(st, '@' + fname, [], None)
        for s in self.run(st, ('ret', 1)):
            self.finish_path(s)

    def fptosi_sym(self, st, v, w):
        conds = [X.b_and([X.mk_cmp(v, '<'), X.mk_cmp(X.p_add(v, F1), '>')])]
        for k in range(0, 12):
            c = X.b_and([X.mk_cmp(X.p_sub(v, Fraction(k)), '>='), X.mk_cmp(X.p_sub(v, Fraction(k + 1)), '<')])
            if st.known(c) is True:
                return k
            conds.append(c)
        if st.known(conds[0]) is True:
            return 0
        hi = X.mk_cmp(X.p_sub(v, Fraction(12)), '>=')
        lo = X.mk_cmp(X.p_add(v, F1), '<=')
        if st.known(hi) is True or st.known(lo) is True:
            raise Unsupported("fptosi out of the modelled range")
        raise NeedSplit([c for c in conds + [hi, lo] if c is not False])
