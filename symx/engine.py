"""Symbolic executor for LLVM IR over exact reals (see expr.py)."""
import math
import sys
import time
from fractions import Fraction
from operator import itemgetter
import z3
from . import expr as X
from .expr import GV, BV, B, Poly, NeedSplit, F0, F1, mk_gv
from .ir import PTR

sys.setrecursionlimit(100000)


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return type(x) is Ptr and x.o == self.o and x.off == self.off

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.o, self.off)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return type(x) is Fn and x.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Fn(%s)" % self.name


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class PathEnd(Exception):
    """path terminated (assume false / exit)"""


class MemErr(Exception):
    def __init__(self, msg):
        self.msg = msg


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("size", "cells", "fill", "alive", "ro", "kind", "name", "own")

    def clone(self, own):
        o = Obj()
        o.size = self.size
        o.cells = dict(self.cells)
        o.fill = self.fill
        o.alive = self.alive
        o.ro = self.ro
        o.kind = self.kind
        o.name = self.name
        o.own = own
        return o


class Frame:
    __slots__ = ("fn", "R", "blk", "ip", "ret", "allocas", "prev")


class State:
    __slots__ = ("mem", "next", "frames", "pc", "pcset", "tok", "user", "heap", "guesses", "smp", "smpn")

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.next = self.next
        fr = []
        for f in self.frames:
            g = Frame()
            g.fn = f.fn
            g.R = list(f.R)
            g.blk = f.blk
            g.ip = f.ip
            g.ret = f.ret
            g.allocas = list(f.allocas)
            g.prev = f.prev
            fr.append(g)
        s.frames = fr
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.tok = object()
        self.tok = object()
        s.user = dict(self.user)
        s.heap = self.heap
        s.guesses = self.guesses
        s.smp = self.smp
        s.smpn = self.smpn
        return s

    def add(self, b):
        lits = []
        X.b_lits(b, lits)
        for x in lits:
            if x is False:
                self.pc.append(False)
                continue
            if x.uid not in self.pcset:
                self.pcset.add(x.uid)
                self.pc.append(x)

    def known(self, b):
        """syntactic truth under the path condition"""
        if type(b) is bool:
            return b
        ps = self.pcset
        if b.uid in ps:
            return True
        n = b._neg
        if n is not None and n.uid in ps:
            return False
        if b.kind == "not":
            r = self.known(b.args[0])
            return None if r is None else (not r)
        if b.kind == "and":
            allk = True
            for x in b.args:
                r = self.known(x)
                if r is False:
                    return False
                if r is None:
                    allk = False
            return True if allk else None
        if b.kind == "or":
            allk = True
            for x in b.args:
                r = self.known(x)
                if r is True:
                    return True
                if r is None:
                    allk = False
            return False if allk else None
        return None


def wrap(v, w):
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v


def conc(x):
    """concrete python float -> exact value"""
    if x != x or x in (math.inf, -math.inf):
        return float(x)
    return Fraction(x)


class CFunc:
    pass


class Engine:
    def __init__(self, modules, smt, cfg=None):
        self.smt = smt
        self.cfg = cfg or {}
        self.mods = modules
        self.types = {}
        self.funcs = {}
        self.gl_addr = {}
        self.builtins = {}
        self.cf = {}
        self.steps = 0
        self.max_steps = self.cfg.get('max_steps', 50_000_000)
        self.deadline = None
        self.fresh = 0
        self.covered_funcs = set()
        self.npaths = 0
        self.nmerge = 0
        self.branch_timeout = self.cfg.get('branch_timeout', 1500)
        from .pool import Pool
        self.pool = Pool(self.cfg.get('pool', 48), self.cfg.get('seed', 1))
        self.nsampled = 0
        self.nomerge = set(self.cfg.get('nomerge', ()))
        self.mem_errors = []
        self.trace = False
        self.events = []
        self.widths = {}
        for M in modules:
            for n, t in M.types.items():
                self.types[(M.name, n)] = t
        self._sz = {}
        self.link()

    # ---------------------------------------------------------------- types
    def res(self, ty, M):
        while ty[0] == 'named':
            ty = self.types[(M.name, ty[1])]
        return ty

    def size_align(self, ty, M):
        k = (ty, M.name)
        r = self._sz.get(k)
        if r is None:
            r = self._size_align(ty, M)
            self._sz[k] = r
        return r

    def _size_align(self, ty, M):
        ty = self.res(ty, M)
        t = ty[0]
        if t == 'int':
            w = ty[1]
            b = 1
            while b * 8 < w:
                b *= 2
            return b, b
        if t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t in ('ptr', 'func'):
            return 8, 8
        if t == 'arr':
            s, a = self.size_align(ty[2], M)
            return s * ty[1], a
        if t == 'struct':
            off = 0
            al = 1
            for f in ty[1]:
                s, a = self.size_align(f, M)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("size of %s" % (ty,))

    def field_off(self, ty, i, M):
        off = 0
        for k, f in enumerate(ty[1]):
            s, a = self.size_align(f, M)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += s

    # ---------------------------------------------------------------- linking
    def gname(self, M, n):
        return (M.name, n) if n in M.internal else n

    def link(self):
        st = State()
        st.mem = {}
        st.next = 1
        st.frames = []
        st.pc = []
        st.pcset = set()
        st.tok = object()
        st.user = {}
        st.heap = 0
        st.guesses = 0
        st.smp = tuple(range(len(self.pool.s)))
        st.smpn = 0
        self.st0 = st
        for M in self.mods:
            for n, F in M.funcs.items():
                g = self.gname(M, n)
                if g in self.funcs and not self.cfg.get('override'):
                    raise Unsupported("duplicate function %s" % (g,))
                if g in self.funcs:
                    continue
                self.funcs[g] = F
        ext = {}
        for M in self.mods:
            for n, (ty, init, const, internal) in M.globals.items():
                g = self.gname(M, n)
                if init is None:
                    ext.setdefault(g, (M, ty))
                    continue
                if g in self.gl_addr:
                    continue
                s, a = self.size_align(ty, M)
                self.gl_addr[g] = self.alloc(st, s, 'global', str(n), 0 if True else None)
                st.mem[self.gl_addr[g].o].ro = const
        for g, (M, ty) in ext.items():
            if g not in self.gl_addr:
                try:
                    s, a = self.size_align(ty, M)
                except Unsupported:
                    s = 8
                self.gl_addr[g] = self.alloc(st, s, 'global', str(g), None)
        for M in self.mods:
            for n, (ty, init, const, internal) in M.globals.items():
                if init is None:
                    continue
                g = self.gname(M, n)
                self.init_global(st, self.gl_addr[g].o, 0, ty, init, M)

    def init_global(self, st, oid, off, ty, init, M):
        ty = self.res(ty, M)
        o = st.mem[oid]
        k = init[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, wrap(b, 8))
            return
        if k == 'agg':
            if ty[0] == 'arr':
                es, _ = self.size_align(ty[2], M)
                for i, (t, v) in enumerate(init[1]):
                    self.init_global(st, oid, off + i * es, t, v, M)
            else:
                for i, (t, v) in enumerate(init[1]):
                    self.init_global(st, oid, off + self.field_off(ty, i, M), t, v, M)
            return
        s, _ = self.size_align(ty, M)
        o.cells[off] = (s, self.const(ty, init, M))

    def const(self, ty, v, M):
        k = v[0]
        if k == 'int':
            if ty[0] == 'int' and ty[1] == 1:
                return bool(v[1])
            return wrap(v[1], ty[1]) if ty[0] == 'int' else v[1]
        if k == 'f':
            return conc(v[1])
        if k == 'null':
            return 0
        if k == 'zero':
            t = self.res(ty, M)
            if t[0] in ('double', 'float'):
                return F0
            if t[0] == 'struct':
                return tuple(self.const(f, ('zero',), M) for f in t[1])
            return 0
        if k == 'glob':
            n = v[1]
            g = self.gname(M, n)
            if g in self.gl_addr:
                return self.gl_addr[g]
            return Fn(g)
        if k == 'undef':
            return UNDEF
        if k == 'ce_gep':
            args = v[2]
            base = self.const(args[0][0], args[0][1], M)
            off, _ = self.gep_const(v[1], [self.const(t, a, M) for t, a in args[1:]], M)
            return Ptr(base.o, base.off + off)
        if k == 'ce_cast':
            return self.const(v[2], v[3], M)
        if k == 'agg':
            return tuple(self.const(t, x, M) for t, x in v[1])
        raise Unsupported("const %s" % (v,))

    def gep_const(self, bt, idx, M):
        off = idx[0] * self.size_align(bt, M)[0]
        ty = self.res(bt, M)
        for i in idx[1:]:
            if ty[0] == 'struct':
                off += self.field_off(ty, i, M)
                ty = self.res(ty[1][i], M)
            else:
                off += i * self.size_align(ty[2], M)[0]
                ty = self.res(ty[2], M)
        return off, ty

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind, name, fill=None):
        o = Obj()
        o.size = size
        o.cells = {}
        o.fill = fill
        o.alive = True
        o.ro = False
        o.kind = kind
        o.name = name
        o.own = st.tok
        oid = st.next
        st.next += 1
        st.mem[oid] = o
        return Ptr(oid, 0)

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.own is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def chk(self, st, p, n, write):
        t = type(p)
        if t is not Ptr:
            if t is GV:
                raise NeedSplit([g for g, v in p.alts])
            if t is int:
                raise MemErr("null pointer %s" % ("write" if write else "read") if 0 <= p < 4096 else "wild pointer")
            if p is UNDEF:
                raise MemErr("access through uninitialised pointer")
            raise Unsupported("deref of %s" % (p,))
        off = p.off
        if type(off) is not int:
            self.split_int(st, off)
        o = st.mem.get(p.o)
        if o is None:
            raise MemErr("access to unknown object")
        if not o.alive:
            raise MemErr("use after free of %s" % o.name)
        if off < 0 or off + n > o.size:
            raise MemErr("out-of-bounds %s of %d bytes at offset %d in %s (size %d)" %
                         ("write" if write else "read", n, off, o.name, o.size))
        if write and o.ro:
            raise MemErr("write to constant %s" % o.name)
        return o

    def split_int(self, st, v):
        """v symbolic integer that must be concrete"""
        if type(v) is GV:
            raise NeedSplit([g for g, x in v.alts])
        if type(v) is BV:
            k = st.user.get(('bv', v.e.get_id()))
            vals = self.enum_bv(st, v)
            raise NeedSplit([X.b_z3(v.e == x) for x in vals])
        raise Unsupported("split %r" % (v,))

    def enum_bv(self, st, v, limit=256):
        base = [b for b in st.pc]
        vals = []
        s = z3.Solver()
        s.set('timeout', 5000)
        zs, _, _ = X.ZA.query(self.smt.slice(base, [X.b_z3(v.e != 12345)]))
        s.add(zs)
        while len(vals) <= limit:
            r = s.check()
            if r == z3.unsat:
                return vals
            if r != z3.sat:
                raise Unsupported("enumeration of symbolic integer timed out")
            x = s.model().eval(v.e, model_completion=True).as_signed_long()
            vals.append(x)
            s.add(v.e != x)
        raise Unsupported("symbolic integer with more than %d values used as address/size" % limit)

    def concrete_int(self, st, v):
        if type(v) is int:
            return v
        if type(v) is GV:
            for g, x in v.alts:
                if st.known(g) is True:
                    return x
            raise NeedSplit([g for g, x in v.alts])
        if type(v) is BV:
            # a pinned value?
            for b in st.pc:
                if type(b) is B and b.kind == 'z3':
                    e = b.args[0]
                    if z3.is_eq(e):
                        l, r = e.arg(0), e.arg(1)
                        if l.get_id() == v.e.get_id() and z3.is_bv_value(r):
                            return r.as_signed_long()
                        if r.get_id() == v.e.get_id() and z3.is_bv_value(l):
                            return l.as_signed_long()
            se = z3.simplify(v.e)
            if z3.is_bv_value(se):
                return se.as_signed_long()
            vals = self.enum_bv(st, v)
            if len(vals) == 1:
                return vals[0]
            raise NeedSplit([X.b_z3(v.e == x) for x in vals])
        if type(v) is bool:
            return int(v)
        if type(v) is B:
            raise NeedSplit([v, X.b_not(v)])
        if v is UNDEF:
            raise MemErr("uninitialised integer used as address/size")
        raise Unsupported("concrete int of %r" % (v,))

    def resolve(self, st, v):
        """narrow a GV under the path condition"""
        if type(v) is GV:
            alts = []
            for g, x in v.alts:
                k = st.known(g)
                if k is True:
                    return x
                if k is None:
                    alts.append((g, x))
            if len(alts) == 1:
                return alts[0][1]
            if len(alts) != len(v.alts):
                return GV(tuple(alts))
        return v

    def load(self, st, p, ty, n):
        if type(p) is not Ptr:
            p = self.resolve(st, p)
            if type(p) is GV:
                raise NeedSplit([g for g, v in p.alts])
        if type(p) is Ptr and type(p.off) is not int:
            off = self.resolve(st, p.off)
            if type(off) is GV and ty[0] == 'double':
                return self.load_gv(st, p, off, ty, n)
            p = Ptr(p.o, self.concrete_int(st, off))
        o = self.chk(st, p, n, False)
        c = o.cells.get(p.off)
        if c is not None and c[0] == n:
            v = c[1]
            t = ty[0]
            if type(v) is int:
                if t == 'double' or t == 'float':
                    if v == 0:
                        return F0
                    import struct
                    return conc(struct.unpack('<d' if n == 8 else '<f', (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))[0])
                if t == 'int' and ty[1] == 1:
                    return bool(v & 1)
            elif v is UNDEF:
                return self.fresh_undef(st, p, ty, n, o)
            elif type(v) is Fraction and t != 'double' and t != 'float' and v == 0:
                return 0
            elif t == 'int' and ty[1] == 8 and type(v) in (bool, B):
                return self.b2i(v)
            return v
        if c is None:
            # overlapping wider / narrower cells?
            ov = [(q, o.cells[q]) for q in range(max(0, p.off - 15), p.off + n) if q in o.cells and q + o.cells[q][0] > p.off]
            if not ov:
                if o.fill is None:
                    return self.fresh_undef(st, p, ty, n, o)
                return F0 if ty[0] in ('double', 'float') else (False if ty == ('int', 1) else 0)
        return self.load_bytes(st, o, p, ty, n)

    def load_gv(self, st, p, off, ty, n):
        """guarded address: fold the alternatives into one value"""
        prev = []
        items = []
        for g, x in off.alts:
            v = self.load(st, Ptr(p.o, x), ty, n)
            if type(g) is X.B and g.kind == 'and':
                g = X.b_and([c for c in g.args if not any(X.b_not(c) is q for q in prev)])
            items.append((g, v))
            prev.append(g)
        r = items[-1][1]
        for g, v in reversed(items[:-1]):
            r = self.merge_val(g, v, r)
        return r

    def load_bytes(self, st, o, p, ty, n):
        out = []
        for q in range(p.off, p.off + n):
            b = None
            for s in range(q, max(-1, q - 16), -1):
                if s in o.cells and s + o.cells[s][0] > q:
                    k, v = o.cells[s]
                    if type(v) is Fraction:
                        import struct
                        v = int.from_bytes(struct.pack('<d' if k == 8 else '<f', float(v)), 'little')
                    if type(v) is bool:
                        v = int(v)
                    if type(v) is not int:
                        raise Unsupported("partial load of symbolic cell in %s" % o.name)
                    b = (v >> (8 * (q - s))) & 255
                    break
            if b is None:
                if o.fill is None:
                    b = 0
                else:
                    b = 0
            out.append(b)
        v = int.from_bytes(bytes(out), 'little')
        if ty[0] == 'double':
            import struct
            return conc(struct.unpack('<d', bytes(out))[0])
        if ty[0] == 'float':
            import struct
            return conc(struct.unpack('<f', bytes(out))[0])
        if ty[0] == 'int':
            return wrap(v, ty[1])
        return v

    def fresh_undef(self, st, p, ty, n, o):
        self.fresh += 1
        nm = "undef!%d" % self.fresh
        t = ty[0]
        if t in ('double', 'float'):
            v = X.mk_var(nm)
        elif t == 'int':
            if ty[1] == 1:
                v = X.b_z3(z3.Bool(nm))
            else:
                v = BV(z3.BitVec(nm, ty[1]), ty[1])
        else:
            return UNDEF
        w = self.wobj(st, p.o) if not o.ro else None
        if w is not None:
            w.cells[p.off] = (n, v)
        return v

    def store(self, st, p, v, n):
        if type(p) is not Ptr:
            p = self.resolve(st, p)
            if type(p) is GV:
                raise NeedSplit([g for g, x in p.alts])
        if type(p) is Ptr and type(p.off) is not int:
            p = Ptr(p.o, self.concrete_int(st, p.off))
        self.chk(st, p, n, True)
        o = self.wobj(st, p.o)
        c = o.cells.get(p.off)
        if c is None or c[0] != n:
            self.clear_range(st, o, p.off, n)
        o.cells[p.off] = (n, v)

    def clear_range(self, st, o, off, n):
        cells = o.cells
        if len(cells) < n + 16:
            rng = [q for q in cells if q + cells[q][0] > off and q < off + n]
        else:
            rng = [q for q in range(off - 16, off + n) if q in cells and q + cells[q][0] > off]
        for q in rng:
            k, v = cells[q]
            if q < off or q + k > off + n:
                # partially overwritten: break into bytes when concrete
                del cells[q]
                if type(v) is Fraction:
                    import struct
                    v = int.from_bytes(struct.pack('<d', float(v)), 'little')
                if type(v) is int:
                    for j in range(k):
                        cells[q + j] = (1, wrap((v >> (8 * j)) & 255, 8))
                else:
                    for j in range(k):
                        cells[q + j] = (1, UNDEF)
        for q in list(cells) if len(cells) < n + 16 else range(off, off + n):
            if off <= q < off + n and q in cells:
                del cells[q]

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so = self.chk(st, s, n, False)
        self.chk(st, d, n, True)
        items = []
        for q, (k, v) in so.cells.items():
            if q + k > s.off and q < s.off + n:
                if q < s.off or q + k > s.off + n:
                    if type(v) is int:
                        for j in range(k):
                            if s.off <= q + j < s.off + n:
                                items.append((q + j, 1, wrap((v >> (8 * j)) & 255, 8)))
                        continue
                    raise Unsupported("memcpy splits a symbolic cell")
                items.append((q, k, v))
        do = self.wobj(st, d.o)
        self.clear_range(st, do, d.off, n)
        covered = 0
        for q, k, v in items:
            do.cells[d.off + q - s.off] = (k, v)
            covered += k
        if covered < n and so.fill != do.fill:
            have = set()
            for q, k, v in items:
                have.update(range(q, q + k))
            q = s.off
            while q < s.off + n:
                if q not in have:
                    k = 8 if (q % 8 == 0 and q + 8 <= s.off + n and not any((q + j) in have for j in range(8))) else 1
                    do.cells[d.off + q - s.off] = (k, UNDEF if so.fill is None else 0)
                    q += k
                else:
                    q += 1

    def cstr(self, st, p):
        if type(p) is GV:
            p = self.resolve(st, p)
            if type(p) is GV:
                raise NeedSplit([g for g, x in p.alts])
        out = []
        q = Ptr(p.o, p.off)
        while True:
            c = self.load(st, q, ('int', 8), 1)
            if type(c) is not int:
                raise Unsupported("symbolic string")
            if c == 0:
                return bytes(x & 255 for x in out).decode('latin1')
            out.append(c)
            q = Ptr(q.o, q.off + 1)

    def put_str(self, st, p, s):
        for i, ch in enumerate(s.encode('latin1') + b'\0'):
            self.store(st, Ptr(p.o, p.off + i), wrap(ch, 8), 1)

    # ---------------------------------------------------------------- ints
    def b2i(self, b):
        if type(b) is bool:
            return 1 if b else 0
        return mk_gv([(b, 1), (X.b_not(b), 0)])

    def to_bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if type(v) is BV:
            return v.e
        if type(v) is bool:
            return z3.BitVecVal(int(v), w)
        if type(v) is B:
            return z3.If(X.Z.b(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if type(v) is GV:
            e = z3.BitVecVal(v.alts[-1][1], w)
            for g, x in reversed(v.alts[:-1]):
                if type(x) is not int:
                    raise Unsupported("pointer GV to BV")
                e = z3.If(X.Z.b(g), z3.BitVecVal(x, w), e)
            return e
        raise Unsupported("to_bv %r" % (v,))

    def gvpair(self, st, a, b, f):
        """apply f over guarded values"""
        A = a.alts if type(a) is GV else ((True, a),)
        Bs = b.alts if type(b) is GV else ((True, b),)
        out = []
        for g, x in A:
            for h, y in Bs:
                c = X.b_and([g, h])
                if c is False:
                    continue
                k = st.known(c)
                if k is False:
                    continue
                out.append((c, f(x, y)))
                if k is True:
                    return out[-1][1]
        if len(out) > 64:
            raise NeedSplit([g for g, x in (A if len(A) > 1 else Bs)])
        return mk_gv(out)

    def int_bin(self, st, op, w, a, b):
        if type(a) is int and type(b) is int:
            return self.int_bin_c(op, w, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ta, tb = type(a), type(b)
        if ta is Ptr or tb is Ptr:
            if op == 'sub' and ta is Ptr and tb is Ptr and a.o == b.o:
                return self.int_bin(st, 'sub', 64, a.off, b.off)
            if op == 'add':
                p, i = (a, b) if ta is Ptr else (b, a)
                return Ptr(p.o, self.int_bin(st, 'add', 64, p.off, i))
            if op == 'sub' and ta is Ptr:
                return Ptr(a.o, self.int_bin(st, 'sub', 64, a.off, b))
            raise Unsupported("int op on pointers")
        if ta is BV or tb is BV:
            return self.bv_bin(op, w, self.to_bv(a, w), self.to_bv(b, w))
        return self.gvpair(st, a, b, lambda x, y: self.int_bin(st, op, w, x, y))

    def int_bin_c(self, op, w, a, b):
        if op == 'add':
            return wrap(a + b, w)
        if op == 'sub':
            return wrap(a - b, w)
        if op == 'mul':
            return wrap(a * b, w)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return wrap(a << b, w) if b < w else 0
        m = (1 << w) - 1
        if op == 'lshr':
            return wrap((a & m) >> b, w)
        if op == 'ashr':
            return wrap(a >> b, w)
        if op in ('sdiv', 'srem'):
            if b == 0:
                raise MemErr("integer division by zero")
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return wrap(q, w) if op == 'sdiv' else wrap(a - q * b, w)
        if op in ('udiv', 'urem'):
            if b == 0:
                raise MemErr("integer division by zero")
            return wrap((a & m) // (b & m) if op == 'udiv' else (a & m) % (b & m), w)
        raise Unsupported(op)

    def bv_bin(self, op, w, a, b):
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b)}[op]
        e = z3.simplify(f())
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return BV(e, w)

    def icmp(self, st, pred, w, a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 'u':
                m = (1 << w) - 1
                a &= m
                b &= m
            p = pred[1:]
            return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
        if ta in (bool, B) or tb in (bool, B):
            if w == 1:
                a = a if ta in (bool, B) else bool(a)
                b = b if tb in (bool, B) else bool(b)
                r = X.b_eq(a, b)
                if pred == 'eq':
                    return r
                if pred == 'ne':
                    return X.b_not(r)
            raise Unsupported("icmp on i1")
        if ta is GV or tb is GV:
            if ta is BV or tb is BV:
                return self.icmp_bv(pred, self.to_bv(a, w), self.to_bv(b, w))
            A = a.alts if ta is GV else ((True, a),)
            Bs = b.alts if tb is GV else ((True, b),)
            out = []
            for g, x in A:
                for h, y in Bs:
                    r = self.icmp(st, pred, w, x, y)
                    if r is False:
                        continue
                    out.append(X.b_and([g, h, r]))
            return X.b_or(out)
        if ta is BV or tb is BV:
            return self.icmp_bv(pred, self.to_bv(a, w), self.to_bv(b, w))
        if ta is Ptr or tb is Ptr:
            if ta is Ptr and tb is Ptr:
                if a.o == b.o:
                    return self.icmp(st, pred, 64, a.off, b.off)
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                raise Unsupported("relational compare of unrelated pointers")
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            raise Unsupported("relational pointer compare")
        if ta is Fn or tb is Fn:
            r = a == b
            return r if pred == 'eq' else not r
        if a is UNDEF or b is UNDEF:
            raise MemErr("branch on uninitialised value")
        raise Unsupported("icmp %r %r" % (a, b))

    def icmp_bv(self, pred, a, b):
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]
        return X.b_z3(f())

    # ---------------------------------------------------------------- floats
    def fval(self, st, v):
        """normalise an operand used as a float"""
        t = type(v)
        if t is Poly or t is Fraction or t is float:
            return v
        if t is GV:
            v = self.resolve(st, v)
            if type(v) is GV:
                raise NeedSplit([g for g, x in v.alts])
            return self.fval(st, v)
        if t is int and v == 0:
            return F0
        if v is UNDEF:
            self.fresh += 1
            return X.mk_var("undef!%d" % self.fresh)
        raise Unsupported("float operand %r" % (v,))

    def fbin(self, st, op, a, b):
        a = self.fval(st, a)
        b = self.fval(st, b)
        if op == 'fadd':
            return X.f_add(a, b)
        if op == 'fsub':
            return X.f_sub(a, b)
        if op == 'fmul':
            return X.f_mul(a, b, st.known)
        if op == 'fdiv':
            return self.fdiv(st, a, b)
        if op == 'frem':
            if type(a) is Fraction and type(b) is Fraction:
                if b == 0:
                    return float('nan')
                q = abs(a) // abs(b)
                r = abs(a) - q * abs(b)
                return r if a >= 0 else -r
            raise Unsupported("symbolic fmod")
        raise Unsupported(op)

    def fdiv(self, st, a, b):
        if type(b) is float:
            if type(a) is float:
                return float('nan')
            return F0 if b == b else b
        if type(b) is Fraction:
            if b == 0:
                if type(a) is float:
                    return a if a != a or a in (math.inf, -math.inf) else float('nan')
                if type(a) is Fraction:
                    return float('nan') if a == 0 else (math.inf if a > 0 else -math.inf)
                sg = X.sign_split(st.known, a)
                return float('nan') if sg == 0 else sg * math.inf
            if type(a) is float:
                return a if b > 0 else -a
            return X.p_div(a, b)
        # symbolic divisor
        if not X.is_pos(b):
            nz = X.mk_cmp(b, "==")
            k = st.known(nz)
            if k is None and nz is not False:
                r = self.decide(st, nz)
                if r is None:
                    raise NeedSplit([nz, X.b_not(nz)])
                k = r
            if k is True:
                return self.fdiv(st, a, F0)
        if type(a) is float:
            if a != a:
                return a
            return a * X.sign_split(st.known, b)
        return X.p_div(a, b)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        ta, tb = type(a), type(b)
        if ta is GV or tb is GV:
            A = a.alts if ta is GV else ((True, a),)
            Bs = b.alts if tb is GV else ((True, b),)
            out = []
            for g, x in A:
                for h, y in Bs:
                    r = self.fcmp(st, pred, x, y)
                    if r is not False:
                        out.append(X.b_and([g, h, r]))
            return X.b_or(out)
        a = self.fval(st, a)
        b = self.fval(st, b)
        nan = (type(a) is float and a != a) or (type(b) is float and b != b)
        if pred == 'ord':
            return not nan
        if pred == 'uno':
            return nan
        if nan:
            return pred[0] == 'u'
        return X.f_cmp(pred[1:], a, b)

    def fsqrt(self, st, a):
        a = self.fval(st, a)
        if type(a) is Poly and not X.is_nonneg(a):
            neg = X.mk_cmp(a, "<")
            if neg is not False:
                k = st.known(neg)
                if k is None:
                    k = self.decide(st, neg)
                if k is None:
                    raise NeedSplit([neg, X.b_not(neg)])
                if k:
                    return float('nan')
        return X.mk_sqrt(a)

    def fabs(self, st, a):
        return X.mk_abs(self.fval(st, a))

    def merge_val(self, c, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta is tb and ta in (int, Fraction, Ptr, Fn, bool, float) and a == b:
            return a
        fl = (Fraction, Poly, float)
        if ta in fl and tb in fl:
            r = X.mk_ite(c, a, b)
            if r is not None:
                return r
            return mk_gv([(c, a), (X.b_not(c), b)])
        if ta in (bool, B) and tb in (bool, B):
            return X.b_ite(c, a, b)
        if a is UNDEF:
            return b if tb not in fl else b
        if b is UNDEF:
            return a
        if ta is BV or tb is BV:
            w = a.w if ta is BV else b.w
            if ta in (int, GV, BV) and tb in (int, GV, BV):
                e = z3.If(X.Z.b(c), self.to_bv(a, w), self.to_bv(b, w))
                return BV(e, w)
            raise Unsupported("merge BV with %r/%r" % (a, b))
        # int 0 cell of calloc vs float
        if ta in fl and tb is int and b == 0:
            return self.merge_val(c, a, F0)
        if tb in fl and ta is int and a == 0:
            return self.merge_val(c, F0, b)
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        nc = X.b_not(c)
        A = a.alts if ta is GV else ((True, a),)
        Bs = b.alts if tb is GV else ((True, b),)
        return mk_gv([(X.b_and([c, g]), v) for g, v in A] + [(X.b_and([nc, g]), v) for g, v in Bs])

    # ---------------------------------------------------------------- deciding
    def decide(self, st, b, cheap=False):
        """True/False if b is determined under pc, None if both possible"""
        k = st.known(b)
        if k is not None:
            return k
        nb = X.b_not(b)
        T = Fa = False
        for i in self.samples_of(st):
            v = self.pool.val(i, b)
            if v is True:
                T = True
            elif v is False:
                Fa = True
            if T and Fa:
                self.nsampled += 1
                return None
        if T or Fa:
            # look for the missing side near the known valuations
            for i in self.jitter(st):
                v = self.pool.val(i, b)
                if v is (not T):
                    self.nsampled += 1
                    return None
        t0 = time.time()
        pcs = self.smt.slice(st.pc, [b])
        r = r2 = 'sat'
        if cheap:
            to = self.cfg.get('cheap_timeout', 120)
            if not T:
                r = self.smt.check(pcs + [b], to)[0]
            if r != 'unsat' and not Fa:
                r2 = self.smt.check(pcs + [nb], to)[0]
            if r == 'unsat':
                st.add(nb)
                return False
            if r2 == 'unsat':
                st.add(b)
                return True
            return None
        if not T:
            r = self.probe(st, pcs, b)
        if r != 'unsat' and not Fa:
            r2 = self.probe(st, pcs, nb)
        if self.trace:
            f = st.frames[-1]
            print("decide %-28s %-10s %s/%s %.2fs pc=%d/%d smp=%d depth=%d  %s" % (f.fn.name, f.blk, r, r2, time.time() - t0, len(pcs), len(st.pc), len(st.smp), len(st.frames), X.b_str(b)[:160]), flush=True)
        if r == 'unsat':
            st.add(nb)
            return False
        if r2 == 'unsat':
            st.add(b)
            return True
        if r == 'unknown' or r2 == 'unknown':
            st.guesses += 1
        return None

    def samples_of(self, st):
        """indices of pool valuations that satisfy the path condition of st"""
        n = len(st.pc)
        if st.smpn < n:
            ids = st.smp
            for k in range(st.smpn, n):
                c = st.pc[k]
                if ids:
                    ids = tuple(i for i in ids if self.pool.val(i, c) is True)
            st.smp = ids
            st.smpn = n
        return st.smp

    def jitter(self, st, n=16):
        ids = self.samples_of(st)
        out = []
        if not ids or len(self.pool.s) >= self.cfg.get('max_samples', 400):
            return out
        for k in range(n):
            i = self.pool.mutate(ids[self.pool.rng.randrange(len(ids))])
            if all(self.pool.val(i, x) is True for x in st.pc):
                out.append(i)
            else:
                self.pool.s.pop()
        if out:
            st.smp = st.smp + tuple(out)
        return out

    def probe(self, st, pcs, c):
        """feasibility of c under the (sliced) path condition; a model found becomes a new sample"""
        if len(self.pool.s) >= self.cfg.get('max_samples', 400):
            r, _ = self.smt.check(pcs + [c], self.branch_timeout)
            return r
        r, m = self.smt.check(pcs + [c], self.branch_timeout, want_model=True)
        if r == 'sat' and m:
            env = {}
            for k, v in self.smt.extract(m, pcs).items():
                if '!' in k:
                    continue
                env[k] = v if type(v) is int else float(v)
            ids = self.samples_of(st)
            i = self.pool.add(env, ids[0] if ids else None)
            if all(self.pool.val(i, x) is True for x in st.pc):
                st.smp = st.smp + (i,)
        return r

    def feasible(self, st, c):
        for i in self.samples_of(st):
            if self.pool.val(i, c) is True:
                return True
        r = self.probe(st, self.smt.slice(st.pc, [c]), c)
        if r == 'unknown':
            st.guesses += 1
        return r != 'unsat'

    @staticmethod
    def is_cheap(F, succ, lab, stop):
        """the branch at lab rejoins at stop through a small acyclic region without calls or divisions"""
        if stop is None:
            return False
        seen = set()
        todo = [x for x in succ[lab] if x != stop]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            if b == lab or len(seen) > 8:
                return False
            seen.add(b)
            for ins in F.blocks[b]:
                if ins[0] in ('call', 'ret', 'unreachable', 'switch') or (ins[0] == 'bin' and 'div' in str(ins)) or 'div' in str(ins[:3]) or 'rem' in str(ins[:3]):
                    return False
            for x in succ[b]:
                if x != stop:
                    todo.append(x)
        # acyclic?
        state = {}

        def dfs(b):
            if b == stop:
                return True
            if state.get(b) == 1:
                return False
            if state.get(b) == 2:
                return True
            state[b] = 1
            for x in succ[b]:
                if not dfs(x):
                    return False
            state[b] = 2
            return True
        return all(dfs(x) for x in succ[lab])

    # ---------------------------------------------------------------- compile
    def compile(self, name):
        c = self.cf.get(name)
        if c is not None:
            return c
        F = self.funcs[name]
        M = F.module
        c = CFunc()
        c.name = name
        c.F = F
        regs = {}

        def rid(n):
            r = regs.get(n)
            if r is None:
                r = len(regs)
                regs[n] = r
            return r

        for ty, n, bv in F.params:
            if n:
                rid(n)
        c.nparams = len(F.params)
        c.pidx = [(rid(n) if n else None, bv) for ty, n, bv in F.params]
        # order of blocks / cfg
        succ = {}
        for lab in F.order:
            ins = F.blocks[lab]
            t = ins[-1] if ins else ('unreachable',)
            if t[0] == 'jmp':
                succ[lab] = [t[1]]
            elif t[0] == 'br':
                succ[lab] = [t[2], t[3]]
            elif t[0] == 'switch':
                succ[lab] = [t[3]] + [l for _, l in t[4]]
            else:
                succ[lab] = []
        c.succ = succ
        c.ipdom = ipdoms(F.order, succ, {l for l in F.order if F.blocks[l] and F.blocks[l][-1][0] == 'ret'})
        c.live = liveness(F, succ)
        c.cheap = {lab for lab in F.order if F.blocks[lab] and F.blocks[lab][-1][0] == 'br' and self.is_cheap(F, succ, lab, c.ipdom.get(lab))}
        comp = _Comp(self, M, rid, c)
        c.blocks = {}
        c.phis = {}
        for lab in F.order:
            code = []
            phis = []
            for ins in F.blocks[lab]:
                if ins[0] == 'phi':
                    phis.append((rid(ins[1]), {l: comp.opd(ins[2], v) for l, v in ins[3]}))
                else:
                    code.append(comp.ins(ins))
            c.blocks[lab] = code
            c.phis[lab] = phis
        c.entry = F.order[0]
        c.nregs = len(regs)
        c.regs = regs
        c.live = {lab: [regs[r] for r in rs if r in regs] for lab, rs in c.live.items()}
        self.cf[name] = c
        return c

    # ---------------------------------------------------------------- running
    def push(self, st, name, args, retdst):
        c = self.compile(name)
        if len(st.frames) > 200:
            raise Unsupported("recursion too deep in %s" % (name,))
        f = Frame()
        f.fn = c
        f.R = [None] * c.nregs
        f.blk = c.entry
        f.ip = 0
        f.ret = retdst
        f.allocas = []
        f.prev = None
        for (ri, bv), a in zip(c.pidx, args):
            if bv is not None:
                s, _ = self.size_align(bv, c.F.module)
                p = self.alloc(st, s, 'stack', 'byval', None)
                self.memcpy(st, p, a, s)
                f.allocas.append(p.o)
                a = p
            if ri is not None:
                f.R[ri] = a
        st.frames.append(f)
        self.covered_funcs.add(name if isinstance(name, str) else name[1])

    def do_ret(self, st, v):
        f = st.frames.pop()
        for o in f.allocas:
            del st.mem[o]
        if st.frames and f.ret is not None:
            st.frames[-1].R[f.ret] = v
        return v

    def jump(self, st, f, lab):
        ph = f.fn.phis[lab]
        if ph:
            cur = f.blk
            R = f.R
            vals = [d[cur](R) for _, d in ph]
            for (i, _), v in zip(ph, vals):
                R[i] = v
        f.prev = f.blk
        f.blk = lab
        f.ip = 0

    def run(self, st, stop):
        """stop: ('blk', depth, label) | ('ret', depth)  -- returns states at the stop point"""
        done = []
        work = [st]
        blk = stop[0] == 'blk'
        sd = stop[1]
        sl = stop[2] if blk else None
        while work:
            st = work.pop()
            try:
                self.exec(st, blk, sd, sl, done, work)
            except PathEnd:
                self.npaths += 1
                continue
        return done

    def exec(self, st, blk, sd, sl, done, work):
        frames = st.frames
        while True:
            if len(frames) < sd or (blk and len(frames) == sd and frames[-1].blk == sl and frames[-1].ip == 0):
                done.append(st)
                return
            if not frames:
                done.append(st)
                return
            f = frames[-1]
            code = f.fn.blocks[f.blk]
            R = f.R
            ip = f.ip
            n = len(code)
            self.steps += n - ip
            if self.steps > self.max_steps:
                raise Unsupported("step budget exceeded")
            try:
                while True:
                    f.ip = ip
                    op = code[ip]
                    r = op(st, R, f)
                    if r is None:
                        ip += 1
                        continue
                    break
            except NeedSplit as e:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget exceeded")
                outs = []
                for c in e.conds:
                    if c is False:
                        continue
                    if c is True:
                        outs.append(None)
                        continue
                    k = st.known(c)
                    if k is False:
                        continue
                    if k is None:
                        if not self.feasible(st, c):
                            continue
                    outs.append(c)
                if not outs:
                    raise PathEnd()
                if len(outs) == 1 and outs[0] is not None:
                    st.add(outs[0])
                    continue
                for c in outs[1:]:
                    s2 = st.fork()
                    s2.add(c)
                    work.append(s2)
                st.add(outs[0])
                continue
            except MemErr as e:
                self.on_memerr(st, e.msg)
                raise PathEnd()
            k = r[0]
            if k == 'jmp':
                self.jump(st, f, r[1])
                continue
            if k == 'call':
                f.ip = ip + 1
                self.push(st, r[1], r[2], r[3])
                continue
            if k == 'ret':
                self.do_ret(st, r[1])
                continue
            if k == 'br':
                c, alts = r[1], r[2]      # alts: list of (cond, label)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget exceeded")
                feas = []
                if len(alts) == 2:
                    d = self.decide(st, alts[0][0], f.blk in f.fn.cheap)
                    if d is True:
                        self.jump(st, f, alts[0][1])
                        continue
                    if d is False:
                        self.jump(st, f, alts[1][1])
                        continue
                    feas = alts
                else:
                    for cnd, lab in alts:
                        kk = st.known(cnd)
                        if kk is False:
                            continue
                        if kk is None:
                            if not self.feasible(st, cnd):
                                continue
                        feas.append((cnd, lab))
                depth = len(frames)
                ipd = f.fn.ipdom.get(f.blk)
                if (f.fn.name if type(f.fn.name) is str else f.fn.name[1]) in self.nomerge or self.cfg.get('merge') is False:
                    for cnd, lab in feas[1:]:
                        s2 = st.fork()
                        s2.add(cnd)
                        self.jump(s2, s2.frames[-1], lab)
                        work.append(s2)
                    st.add(feas[0][0])
                    self.jump(st, f, feas[0][1])
                    continue
                sub = ('blk', depth, ipd) if ipd is not None else ('ret', depth)
                base = len(st.pc)
                res = []
                starts = []
                for i, (cnd, lab) in enumerate(feas):
                    s2 = st.fork() if i < len(feas) - 1 else st
                    starts.append((s2, cnd, lab))
                for s2, cnd, lab in starts:
                    s2.add(cnd)
                    self.jump(s2, s2.frames[-1], lab)
                    res.extend(self.run(s2, sub))
                merged = self.merge_all(res)
                for s2 in merged:
                    work.append(s2)
                return
            raise Unsupported("exec %s" % (k,))

    # ---------------------------------------------------------------- merging
    def merge_all(self, sts):
        if len(sts) < 2:
            return sts
        out = []
        for s in sts:
            for i, t in enumerate(out):
                m = self.merge(t, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, a, b):
        if len(a.frames) != len(b.frames):
            return None
        if a.user != b.user:
            return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.blk != g.blk or f.ip != g.ip or f.allocas != g.allocas:
                return None
        # memory compatibility
        ma, mb = a.mem, b.mem
        diff = []
        for k, o in ma.items():
            p = mb.get(k)
            if p is None:
                if o.alive:
                    return None
                continue
            if p is not o:
                if o.alive != p.alive or o.size != p.size or o.fill != p.fill or o.kind != p.kind:
                    if not o.alive and not p.alive:
                        continue
                    return None
                if o.alive:
                    diff.append(k)
        for k, p in mb.items():
            if k not in ma and p.alive:
                return None
        # path conditions
        i = 0
        n = min(len(a.pc), len(b.pc))
        while i < n and a.pc[i] is b.pc[i]:
            i += 1
        ea, eb = a.pc[i:], b.pc[i:]
        sb = {x.uid: x for x in eb if type(x) is B}
        disc = None
        for x in ea:
            if type(x) is B and x._neg is not None and x._neg.uid in sb:
                disc = x
                break
        ca, cb = X.b_and(ea), X.b_and(eb)
        if ca is False:
            return b
        if cb is False:
            return a
        if disc is None:
            disc = ca
        # collect differences
        fd = []
        depth = len(a.frames)
        for j, (f, g) in enumerate(zip(a.frames, b.frames)):
            if j < depth - 1:
                for r in range(len(f.R)):
                    if f.R[r] is not g.R[r] and not (type(f.R[r]) is type(g.R[r]) and f.R[r] == g.R[r]):
                        fd.append((j, r))
            else:
                live = f.fn.live.get(f.blk) if f.ip == 0 else range(len(f.R))
                for r in live:
                    if f.R[r] is not g.R[r] and not (type(f.R[r]) is type(g.R[r]) and f.R[r] == g.R[r]):
                        fd.append((j, r))
        cd = []
        for k in diff:
            o, p = ma[k], mb[k]
            for off, c in o.cells.items():
                d = p.cells.get(off)
                if d is None:
                    cd.append((k, off, c, None))
                elif c is not d and not (c[0] == d[0] and (c[1] is d[1] or (type(c[1]) is type(d[1]) and c[1] == d[1]))):
                    if c[0] != d[0]:
                        return None
                    cd.append((k, off, c, d))
            for off, d in p.cells.items():
                if off not in o.cells:
                    cd.append((k, off, None, d))
        lim = self.cfg.get('merge_limit', 400)
        if len(fd) + len(cd) > lim:
            return None
        # perform the merge into a
        newv = []
        try:
            for j, r in fd:
                x, y = a.frames[j].R[r], b.frames[j].R[r]
                if x is None or y is None:
                    newv.append(None)
                    continue
                newv.append(self.merge_val(disc, x, y))
            newc = []
            for k, off, c, d in cd:
                if c is None or d is None:
                    o = ma[k]
                    have = c or d
                    if o.fill is None:
                        # written on one side only: undefined on the other
                        newc.append((have[0], have[1]))
                        continue
                    # zero-filled on the other side
                    if ma[k].fill == 0 and type(have[1]) in (Fraction, Poly, float):
                        z = F0
                    else:
                        z = 0
                    x = c[1] if c else z
                    y = d[1] if d else z
                    newc.append((have[0], self.merge_val(disc, x, y)))
                else:
                    newc.append((c[0], self.merge_val(disc, c[1], d[1])))
        except Unsupported:
            return None
        for (j, r), v in zip(fd, newv):
            a.frames[j].R[r] = v
        for (k, off, c, d), v in zip(cd, newc):
            self.wobj(a, k).cells[off] = v
        for k in [k for k in a.mem if k not in mb]:
            del a.mem[k]
        a.next = max(a.next, b.next)
        sa_ = tuple(sorted(set(self.samples_of(a)) | set(self.samples_of(b))))
        a.pc = a.pc[:i]
        a.pcset = set(x.uid for x in a.pc if type(x) is B)
        a.add(X.b_or([ca, cb]))
        a.smp = sa_
        a.smpn = len(a.pc)
        a.guesses = max(a.guesses, b.guesses)
        self.nmerge += 1
        return a

    # ---------------------------------------------------------------- hooks
    def on_memerr(self, st, msg):
        where = " < ".join(str(f.fn.name if isinstance(f.fn.name, str) else f.fn.name[1]) for f in reversed(st.frames[-6:]))
        r, m = self.smt.check(st.pc, 10000, want_model=True)
        if r == 'unsat':
            return
        self.mem_errors.append((msg, where, list(st.pc), r))

    def call_builtin(self, st, name, args, f):
        h = self.builtins.get(name)
        if h is None:
            raise Unsupported("call to undefined function %s" % name)
        return h(self, st, args)

    def start(self, fname, args=()):
        st = self.st0.fork()
        self.push(st, '@' + fname, list(args), None)
        return self.run(st, ('ret', 1))


def ipdoms(order, succ, rets):
    """immediate postdominators; None = function exit.  Blocks that cannot reach a
    return (unreachable) are ignored."""
    # reverse graph from virtual exit
    pred = {l: [] for l in order}
    for l in order:
        for s in succ[l]:
            pred[s].append(l)
    EX = None
    # postorder on reverse graph
    seen = set()
    po = []

    def dfs(l):
        stack = [(l, iter(pred[l]))]
        seen.add(l)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                po.append(x)
                stack.pop()

    for r in order:
        if r in rets and r not in seen:
            dfs(r)
    num = {l: i for i, l in enumerate(po)}
    num[EX] = len(po)
    ip = {EX: EX}
    changed = True
    rpo = list(reversed(po))

    def inter(a, b):
        while a != b:
            while num[a] < num[b]:
                a = ip[a]
            while num[b] < num[a]:
                b = ip[b]
        return a

    while changed:
        changed = False
        for l in rpo:
            ss = [s for s in succ[l] if s in num and s in ip]
            if l in rets:
                new = EX
            else:
                new = 'none'
                for s in ss:
                    new = s if new == 'none' else inter(new, s)
                if new == 'none':
                    continue
            if l not in ip or ip[l] != new:
                ip[l] = new
                changed = True
    del ip[EX]
    return ip


def _ops(ins):
    """operand values of an instruction (raw)"""
    k = ins[0]
    out = []

    def w(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'reg':
                out.append(v[1])
            else:
                for x in v:
                    w(x)
        elif isinstance(v, list):
            for x in v:
                w(x)
    for x in ins[1:] if k in ('store', 'br', 'switch', 'ret', 'jmp') else ins[2:]:
        w(x)
    return out


def liveness(F, succ):
    use, deff, phiuse = {}, {}, {}
    for lab in F.order:
        u, d = set(), set()
        for ins in F.blocks[lab]:
            if ins[0] == 'phi':
                d.add(ins[1])
                for l, v in ins[3]:
                    if v[0] == 'reg':
                        phiuse.setdefault((l, lab), set()).add(v[1])
                continue
            for r in _ops(ins):
                if r not in d:
                    u.add(r)
            if ins[0] not in ('store', 'br', 'switch', 'ret', 'jmp', 'unreachable') and ins[1]:
                d.add(ins[1])
        use[lab], deff[lab] = u, d
    # live at block start *after* phis: phi results count as live if used later
    live = {l: set() for l in F.order}
    phis = {l: {i[1] for i in F.blocks[l] if i[0] == 'phi'} for l in F.order}
    defn = {l: deff[l] - phis[l] for l in F.order}
    use2 = {}
    for lab in F.order:
        u, d = set(), set()
        for ins in F.blocks[lab]:
            if ins[0] == 'phi':
                continue
            for r in _ops(ins):
                if r not in d:
                    u.add(r)
            if ins[0] not in ('store', 'br', 'switch', 'ret', 'jmp', 'unreachable') and ins[1]:
                d.add(ins[1])
        use2[lab] = u
    changed = True
    while changed:
        changed = False
        for lab in reversed(F.order):
            out = set()
            for s in succ[lab]:
                out |= live[s] - phis[s]
                out |= phiuse.get((lab, s), set())
            n = use2[lab] | (out - defn[lab])
            if n != live[lab]:
                live[lab] = n
                changed = True
    return live


class _Comp:
    """compiles instructions to closures"""

    def __init__(self, E, M, rid, c):
        self.E = E
        self.M = M
        self.rid = rid
        self.c = c

    def opd(self, ty, v):
        if v[0] == 'reg':
            return itemgetter(self.rid(v[1]))
        k = self.E.const(self.E.res(ty, self.M) if ty[0] == 'named' else ty, v, self.M)
        return lambda R: k

    def ins(self, i):
        return getattr(self, 'c_' + i[0], self.c_bin)(i)

    def c_bin(self, i):
        E = self.E
        op, dst, ty, a, b = i
        d = self.rid(dst)
        A, Bv = self.opd(ty, a), self.opd(ty, b)
        if op[0] == 'f':
            if op == 'fmul':
                def f(st, R, fr):
                    x, y = A(R), Bv(R)
                    if type(x) is Poly and type(y) is Poly or (type(x) is Fraction and type(y) is Fraction):
                        R[d] = X.p_mul(x, y)
                    else:
                        R[d] = E.fbin(st, 'fmul', x, y)
                return f
            if op == 'fadd':
                def f(st, R, fr):
                    x, y = A(R), Bv(R)
                    if type(x) is Fraction and type(y) is Fraction:
                        R[d] = x + y
                    else:
                        R[d] = E.fbin(st, 'fadd', x, y)
                return f

            def f(st, R, fr):
                R[d] = E.fbin(st, op, A(R), Bv(R))
            return f
        w = ty[1]
        if w == 1:
            def f(st, R, fr):
                x, y = A(R), Bv(R)
                if x is UNDEF or y is UNDEF:
                    raise MemErr("uninitialised boolean")
                if op == 'and':
                    R[d] = X.b_and([x, y])
                elif op == 'or':
                    R[d] = X.b_or([x, y])
                elif op == 'xor':
                    R[d] = X.b_not(X.b_eq(x, y))
                else:
                    raise Unsupported("i1 " + op)
            return f
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op == 'add':
            def f(st, R, fr):
                x, y = A(R), Bv(R)
                if type(x) is int and type(y) is int:
                    v = x + y
                    R[d] = v if lo <= v <= hi else wrap(v, w)
                else:
                    R[d] = E.int_bin(st, op, w, x, y)
            return f

        def f(st, R, fr):
            R[d] = E.int_bin(st, op, w, A(R), Bv(R))
        return f

    def c_fneg(self, i):
        d = self.rid(i[1])
        A = self.opd(i[2], i[3])
        E = self.E

        def f(st, R, fr):
            R[d] = X.f_neg(E.fval(st, A(R)))
        return f

    def c_freeze(self, i):
        d = self.rid(i[1])
        A = self.opd(i[2], i[3])

        def f(st, R, fr):
            R[d] = A(R)
        return f

    def c_cast(self, i):
        _, dst, op, ty, a, to = i
        d = self.rid(dst)
        A = self.opd(ty, a)
        E = self.E
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'bitcast' and ty[0] != to[0]:
                def f(st, R, fr):
                    v = A(R)
                    if type(v) is Fraction and v == 0:
                        R[d] = 0
                    elif type(v) is int and v == 0:
                        R[d] = F0
                    else:
                        raise Unsupported("bitcast")
                return f
            return self.c_freeze((None, dst, ty, a))
        if op in ('sext', 'zext', 'trunc'):
            w0, w1 = ty[1], to[1]
            if w0 == 1:
                one = -1 if op == 'sext' else 1

                def f(st, R, fr):
                    v = A(R)
                    if type(v) is bool:
                        R[d] = one if v else 0
                    elif v is UNDEF:
                        R[d] = UNDEF
                    else:
                        R[d] = mk_gv([(v, one), (X.b_not(v), 0)])
                return f

            def conv(v):
                if type(v) is int:
                    if op == 'zext':
                        return v & ((1 << w0) - 1)
                    if op == 'trunc':
                        return wrap(v, w1)
                    return v
                return v

            def f(st, R, fr):
                v = A(R)
                t = type(v)
                if t is int:
                    v = conv(v)
                    if w1 == 1:
                        v = bool(v & 1)
                elif t is GV:
                    v = mk_gv([(g, conv(x)) for g, x in v.alts])
                    if w1 == 1:
                        v = E.icmp(st, 'ne', w0, v, 0)
                elif t is BV:
                    e = z3.SignExt(w1 - w0, v.e) if op == 'sext' else z3.ZeroExt(w1 - w0, v.e) if op == 'zext' else z3.Extract(w1 - 1, 0, v.e)
                    if w1 == 1:
                        v = X.b_z3(e == z3.BitVecVal(1, 1))
                    else:
                        v = BV(z3.simplify(e), w1)
                R[d] = v
            return f
        if op in ('sitofp', 'uitofp'):
            def cv(v):
                return Fraction(v if op == 'sitofp' else v & ((1 << ty[1]) - 1))

            def f(st, R, fr):
                v = A(R)
                t = type(v)
                if t is int:
                    R[d] = cv(v)
                elif t is GV:
                    r = cv(v.alts[-1][1])
                    for g, x in reversed(v.alts[:-1]):
                        r = X.mk_ite(g, cv(x), r)
                    R[d] = r
                elif t is BV:
                    at, new = X._intern_atom("i2r", v.e.get_id(), (v.e,))
                    R[d] = X.atom_poly(at)
                elif t is bool or t is B:
                    R[d] = X.mk_ite(v, F1, F0)
                else:
                    raise Unsupported("sitofp %r" % (v,))
            return f
        if op in ('fptosi', 'fptoui'):
            def f(st, R, fr):
                v = A(R)
                v = E.fval(st, v)
                if type(v) is Fraction:
                    q = abs(v.numerator) // v.denominator
                    R[d] = wrap(q if v >= 0 else -q, to[1])
                else:
                    E.fresh += 1
                    R[d] = E.fptosi_sym(st, v, to[1])
            return f
        if op in ('fpext', 'fptrunc'):
            return self.c_freeze((None, dst, ty, a))
        raise Unsupported(op)

    def c_icmp(self, i):
        _, dst, pred, ty, a, b = i
        d = self.rid(dst)
        A, Bv = self.opd(ty, a), self.opd(ty, b)
        E = self.E
        w = ty[1] if ty[0] == 'int' else 64

        def f(st, R, fr):
            R[d] = E.icmp(st, pred, w, A(R), Bv(R))
        return f

    def c_fcmp(self, i):
        _, dst, pred, ty, a, b = i
        d = self.rid(dst)
        A, Bv = self.opd(ty, a), self.opd(ty, b)
        E = self.E

        def f(st, R, fr):
            R[d] = E.fcmp(st, pred, A(R), Bv(R))
        return f

    def c_load(self, i):
        _, dst, ty, a = i
        d = self.rid(dst)
        A = self.opd(PTR, a)
        E = self.E
        rty = E.res(ty, self.M)
        if rty[0] in ('struct', 'arr'):
            raise Unsupported("aggregate load")
        n = E.size_align(rty, self.M)[0]

        def f(st, R, fr):
            p = A(R)
            if type(p) is Ptr and type(p.off) is int:
                o = st.mem.get(p.o)
                if o is not None and o.alive and 0 <= p.off and p.off + n <= o.size:
                    c = o.cells.get(p.off)
                    if c is not None and c[0] == n:
                        v = c[1]
                        t = type(v)
                        if t is Poly or t is Ptr or (t is int and rty[0] == 'int' and rty[1] > 1) or (t is Fraction and rty[0] == 'double'):
                            R[d] = v
                            return
            R[d] = E.load(st, p, rty, n)
        return f

    def c_store(self, i):
        _, ty, v, a = i
        A = self.opd(PTR, a)
        V = self.opd(ty, v)
        E = self.E
        rty = E.res(ty, self.M)
        n = E.size_align(rty, self.M)[0]
        if rty[0] in ('struct', 'arr'):
            raise Unsupported("aggregate store")

        def f(st, R, fr):
            E.store(st, A(R), V(R), n)
        return f

    def c_alloca(self, i):
        _, dst, ty, n = i
        d = self.rid(dst)
        E = self.E
        s = E.size_align(ty, self.M)[0]
        N = self.opd(('int', 64), n) if n is not None else None
        nm = "%s:%s" % (self.c.name, dst)

        def f(st, R, fr):
            k = 1 if N is None else E.concrete_int(st, N(R))
            p = E.alloc(st, s * k, 'stack', nm, None)
            fr.allocas.append(p.o)
            R[d] = p
        return f

    def c_gep(self, i):
        _, dst, bt, args = i
        d = self.rid(dst)
        E = self.E
        M = self.M
        base = self.opd(args[0][0], args[0][1])
        const = 0
        var = []
        ty = E.res(bt, M)
        first = True
        for t, v in args[1:]:
            if first:
                sc = E.size_align(bt, M)[0]
                first = False
            elif ty[0] == 'struct':
                const += E.field_off(ty, v[1], M)
                ty = E.res(ty[1][v[1]], M)
                continue
            else:
                sc = E.size_align(ty[2], M)[0]
                ty = E.res(ty[2], M)
            if v[0] == 'int':
                const += v[1] * sc
            else:
                var.append((self.opd(t, v), sc, t[1]))

        def addoff(st, p, off):
            if type(p) is Ptr:
                if type(p.off) is int and type(off) is int:
                    return Ptr(p.o, p.off + off)
                return Ptr(p.o, E.int_bin(st, 'add', 64, p.off, off))
            if type(p) is GV:
                if type(off) is not int:
                    off = E.concrete_int(st, off)
                return mk_gv([(g, addoff(st, x, off)) for g, x in p.alts])
            if type(p) is int:
                if type(off) is int and off == 0:
                    return p
                if type(off) is int:
                    return wrap(p + off, 64)
                return E.int_bin(st, 'add', 64, p, off)
            if p is UNDEF:
                raise MemErr("address computed from uninitialised pointer")
            raise Unsupported("gep on %r" % (p,))

        if not var:
            def f(st, R, fr):
                p = base(R)
                if type(p) is Ptr and type(p.off) is int:
                    R[d] = Ptr(p.o, p.off + const) if const else p
                else:
                    R[d] = addoff(st, p, const)
            return f
        if len(var) == 1:
            G, sc, w = var[0]

            def f(st, R, fr):
                p = base(R)
                x = G(R)
                if type(x) is int:
                    off = const + x * sc
                else:
                    x = E.resolve(st, x)
                    if w != 64:
                        x = E.concrete_int(st, x)
                    off = E.int_bin(st, 'add', 64, E.int_bin(st, 'mul', 64, x, sc), const)
                R[d] = addoff(st, p, off)
            return f

        def f(st, R, fr):
            off = const
            for G, sc, w in var:
                x = E.concrete_int(st, G(R))
                off += x * sc
            R[d] = addoff(st, base(R), off)
        return f

    def c_jmp(self, i):
        r = ('jmp', i[1])
        return lambda st, R, fr: r

    def c_br(self, i):
        _, c, a, b = i
        C = self.opd(('int', 1), c)
        ra, rb = ('jmp', a), ('jmp', b)
        E = self.E

        def f(st, R, fr):
            v = C(R)
            if v is True:
                return ra
            if v is False:
                return rb
            if v is UNDEF:
                raise MemErr("branch on uninitialised value")
            k = st.known(v)
            if k is True:
                return ra
            if k is False:
                return rb
            return ('br', v, [(v, a), (X.b_not(v), b)])
        return f

    def c_switch(self, i):
        _, ty, v, dflt, cs = i
        V = self.opd(ty, v)
        E = self.E
        tab = {k: l for k, l in cs}
        w = ty[1]

        def f(st, R, fr):
            x = E.resolve(st, V(R))
            if type(x) is int:
                return ('jmp', tab.get(x, dflt))
            alts = []
            rest = []
            by = {}
            for k, l in cs:
                c = E.icmp(st, 'eq', w, x, k)
                by.setdefault(l, []).append(c)
                rest.append(c)
            nd = X.b_not(X.b_or(rest))
            for l, conds in by.items():
                c = X.b_or(conds)
                if l == dflt:
                    nd = X.b_or([nd, c])
                    continue
                if c is not False:
                    alts.append((c, l))
            if nd is not False:
                alts.append((nd, dflt))
            if len(alts) == 1:
                return ('jmp', alts[0][1])
            return ('br', None, alts)
        return f

    def c_ret(self, i):
        if i[1] is None:
            r = ('ret', None)
            return lambda st, R, fr: r
        V = self.opd(i[1], i[2])
        return lambda st, R, fr: ('ret', V(R))

    def c_unreachable(self, i):
        def f(st, R, fr):
            raise PathEnd()
        return f

    def c_select(self, i):
        _, dst, ty, c, a, b = i
        d = self.rid(dst)
        C, A, Bv = self.opd(('int', 1), c), self.opd(ty, a), self.opd(ty, b)
        E = self.E

        def f(st, R, fr):
            v = C(R)
            if v is True:
                R[d] = A(R)
                return
            if v is False:
                R[d] = Bv(R)
                return
            if v is UNDEF:
                raise MemErr("select on uninitialised value")
            k = st.known(v)
            if k is None:
                R[d] = E.merge_val(v, A(R), Bv(R))
            else:
                R[d] = A(R) if k else Bv(R)
        return f

    def c_extractvalue(self, i):
        _, dst, ty, a, idx = i
        d = self.rid(dst)
        A = self.opd(ty, a)

        def f(st, R, fr):
            v = A(R)
            for k in idx:
                v = v[k]
            R[d] = v
        return f

    def c_insertvalue(self, i):
        _, dst, ty, a, vt, v, idx = i
        d = self.rid(dst)
        A, V = self.opd(ty, a), self.opd(vt, v)
        n = len(self.E.res(ty, self.M)[1])

        def f(st, R, fr):
            x = A(R)
            if x is UNDEF:
                x = (UNDEF,) * n
            x = list(x)
            x[idx[0]] = V(R)
            R[d] = tuple(x)
        return f

    def c_call(self, i):
        _, dst, rt, callee, args = i
        d = self.rid(dst) if dst else None
        E = self.E
        M = self.M
        ops = [self.opd(t, a) for t, a, bv in args]
        byv = [(k, bv) for k, (t, a, bv) in enumerate(args) if bv is not None]
        if callee[0] == 'glob':
            g = E.gname(M, callee[1])
            if g in E.funcs and callee[1][1:] not in E.builtins_override:
                def f(st, R, fr):
                    return ('call', g, [o(R) for o in ops], d)
                return f
            name = callee[1][1:]
            h = E.builtins.get(name)
            if h is None:
                if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.va_'):
                    return lambda st, R, fr: None
                base = name.split('.')
                h = E.builtins.get('.'.join(base[:2]))
            if h is None:
                def f(st, R, fr):
                    raise Unsupported("call to undefined function %s" % name)
                return f

            def f(st, R, fr):
                v = h(E, st, [o(R) for o in ops])
                if d is not None:
                    R[d] = v
            return f
        C = self.opd(PTR, callee)

        def f(st, R, fr):
            fn = E.resolve(st, C(R))
            if type(fn) is GV:
                raise NeedSplit([g for g, x in fn.alts])
            if type(fn) is not Fn:
                raise MemErr("call through a bad function pointer (%r)" % (fn,))
            if fn.name in E.funcs:
                return ('call', fn.name, [o(R) for o in ops], d)
            nm = fn.name[1:] if isinstance(fn.name, str) else fn.name[1][1:]
            h = E.builtins.get(nm)
            if h is None:
                raise Unsupported("indirect call to %s" % nm)
            v = h(E, st, [o(R) for o in ops])
            if d is not None:
                R[d] = v
        return f
