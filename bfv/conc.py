"""Symbolic execution of whole compiled programs, one path at a time.

The macro crate (with syn, proc-macro2 and the parts of std they use) is
compiled to one LLVM module; every function that a run reaches is translated
to Python.  Values are Python ints, or Sym: a concrete value paired with an SMT
term over the input bytes.  Each branch on a Sym records its condition; the
explorer asks the solver for an input that takes the other side, until no
feasible side is left, so the paths partition the whole input space.  At the
end of a path the solver decides the assertion for every input on that path.
"""
import re

import z3

from . import ir
from .ir import P, PTR, VOID, Unsupported, size_align, struct_offsets, tokenize


class Stop(Exception):
    pass


class ProgPanic(Exception):
    pass


class Fault(Exception):
    pass


BVV = {}


def val(x, n):
    k = (x, n)
    r = BVV.get(k)
    if r is None:
        if len(BVV) > 200000:
            BVV.clear()
        r = BVV[k] = z3.BitVecVal(x, n)
    return r


def bv(x, n):
    return x.e if x.__class__ is Sym else val(int(x), n)


def mk(v, e, n):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return Sym(v, e, n)


ONE, ZERO = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)


class Sym:
    __slots__ = ('v', 'e', 'n')

    def __init__(self, v, e, n):
        self.v = v
        self.e = e
        self.n = n

    def _b(self, o, f, g):
        n = self.n
        if o.__class__ is Sym:
            if o.n != n:
                raise Fault('width %d %d' % (n, o.n))
            return mk(f(self.v, o.v) & ((1 << n) - 1), g(self.e, o.e), n)
        o = int(o) & ((1 << n) - 1)
        return mk(f(self.v, o) & ((1 << n) - 1), g(self.e, val(o, n)), n)

    def _r(self, o, f, g):
        n = self.n
        o = int(o) & ((1 << n) - 1)
        return mk(f(o, self.v) & ((1 << n) - 1), g(val(o, n), self.e), n)

    def __add__(self, o): return self._b(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o): return self._b(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._r(o, lambda a, b: a - b, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __and__(self, o):
        if o.__class__ is not Sym and int(o) & ((1 << self.n) - 1) == (1 << self.n) - 1:
            return self
        return self._b(o, lambda a, b: a & b, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o): return self._b(o, lambda a, b: a | b, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __floordiv__(self, o): return self._b(o, lambda a, b: a // b, z3.UDiv)
    def __rfloordiv__(self, o): return self._r(o, lambda a, b: a // b, z3.UDiv)
    def __mod__(self, o): return self._b(o, lambda a, b: a % b, z3.URem)
    def __rmod__(self, o): return self._r(o, lambda a, b: a % b, z3.URem)
    def __lshift__(self, o): return self._b(o, lambda a, b: a << b if b < 4096 else 0, lambda a, b: a << b)
    def __rlshift__(self, o): return self._r(o, lambda a, b: a << b if b < 4096 else 0, lambda a, b: a << b)
    def __rshift__(self, o): return self._b(o, lambda a, b: a >> b, z3.LShR)
    def __rrshift__(self, o): return self._r(o, lambda a, b: a >> b, z3.LShR)

    def _c(self, o, f, g):
        n = self.n
        if o.__class__ is Sym:
            ov, oe = o.v, o.e
        else:
            ov = int(o) & ((1 << n) - 1)
            oe = val(ov, n)
        e = z3.simplify(g(self.e, oe))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym(1 if f(self.v, ov) else 0, z3.If(e, ONE, ZERO), 1)

    def __eq__(self, o): return self._c(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b, z3.ULT)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, z3.ULE)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, z3.UGT)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, z3.UGE)
    __hash__ = None

    def __bool__(self):
        return ENG.branch(self)

    def zext(self, n):
        return self if n == self.n else mk(self.v, z3.ZeroExt(n - self.n, self.e), n)

    def trunc(self, n):
        return self if n == self.n else mk(self.v & ((1 << n) - 1), z3.Extract(n - 1, 0, self.e), n)

    def __repr__(self):
        return 'Sym(%d:%d)' % (self.v, self.n)


ENG = None


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def h_slt(a, b, n):
    if a.__class__ is Sym or b.__class__ is Sym:
        f = 1 << (n - 1)
        return (a ^ f) < (b ^ f)
    return sgn(a, n) < sgn(b, n)


def h_sle(a, b, n):
    if a.__class__ is Sym or b.__class__ is Sym:
        f = 1 << (n - 1)
        return (a ^ f) <= (b ^ f)
    return sgn(a, n) <= sgn(b, n)


def h_sext(a, n, m):
    if a.__class__ is Sym:
        return mk(sgn(a.v, n) & ((1 << m) - 1), z3.SignExt(m - n, a.e), m)
    return sgn(int(a), n) & ((1 << m) - 1)


def h_ashr(a, b, n):
    if a.__class__ is Sym or b.__class__ is Sym:
        av, bvv = (a.v if a.__class__ is Sym else a), (b.v if b.__class__ is Sym else b)
        return mk((sgn(av, n) >> bvv) & ((1 << n) - 1), bv(a, n) >> bv(b, n), n)
    return (sgn(a, n) >> b) & ((1 << n) - 1)


def h_sdiv(a, b, n):
    if a.__class__ is Sym or b.__class__ is Sym:
        a = ENG.conc(a)
        b = ENG.conc(b)
    a, b = sgn(a, n), sgn(b, n)
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & ((1 << n) - 1)


def h_srem(a, b, n):
    if a.__class__ is Sym or b.__class__ is Sym:
        a = ENG.conc(a)
        b = ENG.conc(b)
    a, b = sgn(a, n), sgn(b, n)
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << n) - 1)


def h_sel(c, a, b, n):
    if n and not isinstance(a, tuple) and not isinstance(b, tuple):
        v = a if c.v else b
        return mk(v.v if v.__class__ is Sym else v, z3.If(c.e == 1, bv(a, n), bv(b, n)), n)
    return a if c else b


def bits_of(t):
    return t[1] if t[0] == 'i' else 64


# std's entry to panicking, below the code that formats the message
PANIC = re.compile(r'9panicking(15panic_with_hook|20rust_panic_with_hook|19begin_panic_handler|9panic_fmt|10rust_panic)|rust_begin_unwind|17rust_begin_unwind')

GLOB0 = 0x10000
MEMSZ = 192 << 20
STACK0 = 24 << 20
HEAP0 = 56 << 20
FN0 = 1 << 40


class Engine:
    def __init__(self, text, stop=None):
        self.m = LazyModule(text)
        self.mem = bytearray(MEMSZ)
        self.ginit = bytearray(STACK0)
        self.gend = GLOB0
        self.gaddr = {}
        self.fnidx = {}
        self.fnlist = []
        self.sym = {}
        self.lines = set()
        self.sp = STACK0
        self.hp = HEAP0
        self.G = {'Sym': Sym, 'E': self, 'h_slt': h_slt, 'h_sle': h_sle, 'h_sext': h_sext, 'h_ashr': h_ashr,
                  'h_sdiv': h_sdiv, 'h_srem': h_srem, 'h_sel': h_sel, 'ld': self.ld, 'st': self.st,
                  'ProgPanic': ProgPanic, 'Fault': Fault, 'mem': self.mem, 'lines': self.lines,
                  'ifb': int.from_bytes, 'callptr': self.callptr}
        self.cfn = {}
        self.calls = 0
        self.path = []
        self.loads = {}
        self.vrange = {}
        self.seen = {}
        self.stop = stop
        self.encoded = set()
        global ENG
        ENG = self

    # ---- path conditions
    def branch(self, s):
        t = s.v != 0
        k = s.e.get_id()
        if k not in self.seen:
            self.seen[k] = s.e
            c = z3.simplify(s.e == 1)
            if not (z3.is_true(c) or z3.is_false(c)) and self.decided(c) is None:
                self.path.append(c if t else z3.Not(c))
        return t

    def decided(self, c):
        """truth of a condition that the ranges of its terms already settle"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.decided(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = [self.decided(x) for x in c.children()]
            if k == z3.Z3_OP_AND:
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and z3.is_bv(c.arg(0)):
            (a, b), (x, y) = self.interval(c.arg(0)), self.interval(c.arg(1))
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                a, b, x, y = x, y, a, b
                k = z3.Z3_OP_ULEQ if k == z3.Z3_OP_UGEQ else z3.Z3_OP_ULT
            if k == z3.Z3_OP_EQ:
                return False if b < x or y < a else True if a == b == x == y else None
            if k == z3.Z3_OP_ULEQ:
                return True if b <= x else False if a > y else None
            return True if b < x else False if a >= y else None
        return None

    def conc(self, s):
        """pin a value to the one of this run; the explorer visits the others"""
        if s.__class__ is not Sym:
            return s
        self.branch_eq(s)
        return s.v

    def branch_eq(self, s):
        c = z3.simplify(s.e == z3.BitVecVal(s.v, s.n))
        if not z3.is_true(c):
            k = c.get_id()
            if k not in self.seen:
                self.seen[k] = c
                self.path.append(c)

    # ---- memory
    def ld(self, a, n):
        """load n bytes"""
        if a.__class__ is Sym:
            return self.ld_sym(a, n)
        lines = self.lines
        if lines and ((a >> 6) in lines or ((a + n - 1) >> 6) in lines):
            sym = self.sym
            cs = [sym.get(a + i) for i in range(n)]
            for c in cs:
                if c is not None:
                    break
            else:
                return int.from_bytes(self.mem[a:a + n], 'little')
            c0 = cs[0]
            if c0 is not None and c0[1] == 0 and c0[0].n <= 8 * n and all(
                    cs[i] is not None and cs[i][0] is c0[0] and cs[i][1] == i for i in range((c0[0].n + 7) // 8)) \
                    and c0[0].n > 8 * (n - 1):
                return c0[0].zext(8 * n) if c0[0].n != 8 * n else c0[0]
            parts = []
            for i in range(n - 1, -1, -1):
                c = cs[i]
                if c is None:
                    parts.append(z3.BitVecVal(self.mem[a + i], 8))
                else:
                    parts.append(self.byte(c))
            e = parts[0] if n == 1 else z3.Concat(*parts)
            return mk(int.from_bytes(self.mem[a:a + n], 'little'), e, 8 * n)
        return int.from_bytes(self.mem[a:a + n], 'little')

    @staticmethod
    def byte(c):
        s, i = c
        hi = min(8 * i + 7, s.n - 1)
        e = z3.Extract(hi, 8 * i, s.e)
        if hi - 8 * i < 7:
            e = z3.ZeroExt(7 - (hi - 8 * i), e)
        return e

    def ld_sym(self, a, n):
        lo, hi = self.rng(a)
        if hi - lo > 2048:
            return self.ld(self.conc(a), n)
        v = self.ld(a.v, n)
        key = None
        if not self.lines or not any(l in self.lines for l in range(lo >> 6, ((hi + n - 1) >> 6) + 1)):
            key = (a.e.get_id(), n, lo, bytes(self.mem[lo:hi + n]))
            m = self.loads.get(key)
            if m is not None:
                return mk(v, m[0], 8 * n)
        e = bv(v, 8 * n)
        for x in range(lo, hi + 1):
            y = self.ld(x, n)
            if x != a.v and not (y.__class__ is not Sym and v.__class__ is not Sym and y == v):
                e = z3.If(a.e == val(x, 64), bv(y, 8 * n), e)
        e = z3.simplify(e)
        if key:
            if len(self.loads) > 4000:
                self.loads.clear()
            self.loads[key] = (e, a.e)
        return mk(v.v if v.__class__ is Sym else v, e, 8 * n)

    def rng(self, s):
        """bounds of a term under the path condition"""
        lo, hi = self.interval(s.e)
        if hi - lo <= 512:
            return lo, hi
        so = z3.Solver()
        so.add(*self.assume)
        so.add(*self.path)
        lo, hi = 0, s.v
        while lo < hi:
            mid = (lo + hi) // 2
            if so.check(z3.ULE(s.e, mid)) == z3.sat:
                hi = mid
            else:
                lo = mid + 1
        a = lo
        lo, hi = s.v, min((1 << s.n) - 1, s.v + (1 << 24))
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if so.check(z3.UGE(s.e, mid)) == z3.sat:
                lo = mid
            else:
                hi = mid - 1
        return a, lo

    def interval(self, e):
        """bounds of a term from its structure and the ranges of the input characters"""
        k = e.get_id()
        r = self.ivals.get(k)
        if r is None:
            r = self.ivals[k] = (self.interval0(e), e)
        return r[0]

    def interval0(self, e):
        n = e.size()
        M = (1 << n) - 1
        top = (0, M)
        k = e.decl().kind()
        if k == z3.Z3_OP_BNUM:
            v = e.as_long()
            return v, v
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.vrange.get(e.decl().name(), top)
        c = e.children()
        if k == z3.Z3_OP_ZERO_EXT:
            return self.interval(c[0])
        if k == z3.Z3_OP_CONCAT:
            lo = hi = 0
            for x in c:
                a, b = self.interval(x)
                w = x.size()
                if lo == hi:
                    lo, hi = (lo << w) + a, (hi << w) + b
                else:
                    lo, hi = lo << w, (hi << w) + (1 << w) - 1
            return lo, hi
        if k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            a, b = self.interval(c[0])
            if a >> (h + 1) == b >> (h + 1):
                m = (1 << (h + 1)) - 1
                return (a & m) >> l, (b & m) >> l
            return top
        if k == z3.Z3_OP_ITE:
            a, b = self.interval(c[1]), self.interval(c[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            lo, hi = self.interval(c[0])
            for x in c[1:]:
                a, b = self.interval(x)
                lo, hi = (lo + a, hi + b) if k == z3.Z3_OP_BADD else (lo * a, hi * b)
                if lo >> n != hi >> n:
                    return top
                lo, hi = lo & M, hi & M
            return lo, hi
        if len(c) == 2:
            (a, b), (x, y) = self.interval(c[0]), self.interval(c[1])
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and x:
                return a // y, b // x
            if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and x:
                return 0, min(b, y - 1)
            if k == z3.Z3_OP_BAND:
                return 0, min(b, y)
            if k == z3.Z3_OP_BLSHR and x == y:
                return a >> x, b >> x
            if k == z3.Z3_OP_BSHL and x == y and b << x <= M:
                return a << x, b << x
        return top

    def st(self, a, v, n):
        if a.__class__ is Sym:
            a = self.conc(a)
        if v.__class__ is Sym:
            for i in range((v.n + 7) // 8):
                self.sym[a + i] = (v, i)
                self.lines.add((a + i) >> 6)
            self.mem[a:a + n] = v.v.to_bytes(n, 'little')
            for i in range((v.n + 7) // 8, n):
                self.sym.pop(a + i, None)
            return
        self.mem[a:a + n] = int(v).to_bytes(n, 'little')
        if (a >> 6) in self.lines or ((a + n - 1) >> 6) in self.lines:
            for i in range(n):
                self.sym.pop(a + i, None)

    def copy(self, d, s, n):
        d, s, n = self.conc(d), self.conc(s), self.conc(n)
        if not n:
            return
        sym = self.sym
        if sym:
            mv = []
            if any(l in self.lines for l in range(s >> 6, ((s + n - 1) >> 6) + 1)):
                mv = [(i, sym[s + i]) for i in range(n) if s + i in sym]
            if any(l in self.lines for l in range(d >> 6, ((d + n - 1) >> 6) + 1)):
                for i in range(n):
                    sym.pop(d + i, None)
            for i, c in mv:
                sym[d + i] = c
                self.lines.add((d + i) >> 6)
        self.mem[d:d + n] = self.mem[s:s + n]

    def fill(self, d, c, n):
        d, n = self.conc(d), self.conc(n)
        if c.__class__ is Sym:
            for i in range(n):
                self.st(d + i, c, 1)
            return
        self.mem[d:d + n] = bytes([c]) * n
        if any(l in self.lines for l in range(d >> 6, ((d + n) >> 6) + 1)):
            for i in range(n):
                self.sym.pop(d + i, None)

    def compare(self, a, b, n, eq):
        a, b, n = self.conc(a), self.conc(b), self.conc(n)
        if not n:
            return 0
        sym = self.sym
        if not sym or not any(a + i in sym or b + i in sym for i in range(n)):
            x, y = self.mem[a:a + n], self.mem[b:b + n]
            return 0 if x == y else (1 if x > y else 0xffffffff)
        if eq:
            cs = []
            v = True
            for i in range(n):
                x, y = self.ld(a + i, 1), self.ld(b + i, 1)
                r = x == y
                if r.__class__ is Sym:
                    cs.append(r.e == 1)
                    v = v and r.v
                elif not r:
                    return 1
            if not cs:
                return 0
            e = z3.simplify(z3.And(*cs))
            s = Sym(1 if v else 0, z3.If(e, ONE, ZERO), 1)
            return 0 if self.branch(s) else 1
        for i in range(n):
            x, y = self.ld(a + i, 1), self.ld(b + i, 1)
            if x == y:
                continue
            return 1 if x > y else 0xffffffff
        return 0

    def malloc(self, n, al=16):
        n, al = self.conc(n), self.conc(al)
        p = (self.hp + al - 1) // al * al
        self.hp = p + max(n, 1)
        if self.hp > MEMSZ:
            raise Fault('out of memory')
        return p

    # ---- globals and functions
    def galloc(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.aliases:
            return self.galloc(self.m.aliases[name])
        if name in self.m.fpos or name in self.m.decls:
            return self.fnaddr(name)
        g = self.m.global_init(name)
        if g is None:
            raise Fault('global ' + name)
        t, v = g
        sz, al = size_align(t)
        a = (self.gend + 15) // 16 * 16
        self.gend = a + max(sz, 1)
        self.gaddr[name] = a
        if v is not None:
            self.ginitval(a, t, v)
        return a

    def gput(self, a, v, n):
        b = v.to_bytes(n, 'little')
        self.ginit[a:a + n] = b
        self.mem[a:a + n] = b

    def ginitval(self, a, t, v):
        k = v[0]
        if k == 'bytes':
            self.ginit[a:a + len(v[1])] = v[1]
            self.mem[a:a + len(v[1])] = v[1]
        elif k in ('zero', 'undef', 'null'):
            pass
        elif k == 'agg':
            if t[0] in ('arr', 'vec'):
                s = size_align(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.ginitval(a + i * s, et, ev)
            else:
                for o, (et, ev) in zip(struct_offsets(t), v[1]):
                    self.ginitval(a + o, et, ev)
        else:
            self.gput(a, self.constval(t, v), size_align(t)[0])

    def constval(self, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.galloc(v[1])
        if k in ('null', 'undef'):
            return self.zero(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'cgep':
            return self.constgep(v)
        if k == 'ccast':
            x = self.constval(v[2], v[3])
            return x & ((1 << bits_of(v[4])) - 1)
        if k == 'cbin':
            a, b = self.constval(v[2], v[3]), self.constval(v[2], v[4])
            return ((a + b) if v[1] == 'add' else (a - b)) & ((1 << bits_of(v[2])) - 1)
        if k == 'agg':
            return tuple(self.constval(et, ev) for et, ev in v[1])
        if k == 'bytes':
            return tuple(v[1])
        raise Fault('const %r' % (v,))

    def zero(self, t):
        if t[0] in ('arr', 'vec'):
            return (self.zero(t[2]),) * t[1]
        if t[0] == 'struct':
            return tuple(self.zero(x) for x in t[2])
        return 0

    def constgep(self, v):
        _, bt, base, idx = v
        a = self.constval(PTR, base)
        t = bt
        for i, (it, iv) in enumerate(idx):
            x = self.constval(it, iv)
            x = sgn(x, bits_of(it))
            if i == 0:
                a += x * size_align(t)[0]
            elif t[0] == 'struct':
                a += struct_offsets(t)[x]
                t = t[2][x]
            else:
                t = t[2]
                a += x * size_align(t)[0]
        return a & ((1 << 64) - 1)

    def fnaddr(self, name):
        i = self.fnidx.get(name)
        if i is None:
            i = self.fnidx[name] = len(self.fnlist)
            self.fnlist.append(name)
        return FN0 + i * 16

    def fnref(self, name):
        """python name of the callable for an IR function"""
        name = self.m.aliases.get(name, name)
        p = self.cfn.get(name)
        if p is None:
            p = self.cfn[name] = 'f%d' % len(self.cfn)
            if PANIC.search(name):
                def panics(*a, name=name):
                    raise ProgPanic(name)
                self.G[p] = panics
                return p
            if 'BuildHasher8hash_one' in name and 'RandomState' in name:
                # any hash will do: what a map or set does depends on it only in its iteration order
                self.G[p] = lambda *a: 0
                return p
            if name in self.m.fpos:
                def stub(*a, name=name, p=p):
                    fn = compile_fn(self, name, p)
                    self.G[p] = fn
                    return fn(*a)
                self.G[p] = stub
            else:
                self.G[p] = self.external(name)
        return p

    def callptr(self, a, *args):
        a = self.conc(a)
        i = (a - FN0) >> 4
        if a < FN0 or i >= len(self.fnlist):
            raise Fault('call to %x' % a)
        return self.G[self.fnref(self.fnlist[i])](*args)

    # ---- externals
    def external(self, name):
        n = name[1:].strip('"')
        f = getattr(self, 'x_' + n.replace('.', '_'), None)
        if f:
            return f
        if n.startswith('llvm.'):
            return self.intrinsic(n)

        def missing(*a):
            raise Fault('external ' + n)
        return missing

    def x_malloc(self, n): return self.malloc(n)

    def x_calloc(self, a, b):
        n = self.conc(a) * self.conc(b)
        p = self.malloc(n)
        self.fill(p, 0, n)
        return p

    def x_realloc(self, p, n):
        q = self.malloc(n)
        if p:
            self.copy(q, p, self.conc(n))
        return q

    def x_posix_memalign(self, pp, al, n):
        self.st(pp, self.malloc(n, al), 8)
        return 0

    def x_free(self, p): return None
    def x_memcpy(self, d, s, n): self.copy(d, s, n); return d
    x_memmove = x_memcpy
    def x_memset(self, d, c, n): self.fill(d, c & 255, n); return d
    def x_memcmp(self, a, b, n): return self.compare(a, b, n, False)
    def x_bcmp(self, a, b, n): return self.compare(a, b, n, True)

    def x_strlen(self, a):
        i = 0
        while self.mem[a + i]:
            i += 1
        return i

    def x___cxa_thread_atexit_impl(self, *a): return 0

    def x_abort(self):
        raise ProgPanic('abort')

    def x_write(self, fd, p, n): return n

    def x_getrandom(self, p, n, f):
        self.fill(p, 0x5a, n)
        return n

    def x_syscall(self, *a):
        if a[0] == 318:
            return self.x_getrandom(*a[1:4])
        raise Fault('syscall %r' % (a,))

    def x___errno_location(self): return self.malloc(8)
    def x_getenv(self, p): return 0

    def x_pthread_key_create(self, k, d):
        self.st(k, 1, 4)
        return 0

    def x_pthread_setspecific(self, k, v): return 0
    def x_pthread_getspecific(self, k): return 0
    def x_pthread_key_delete(self, k): return 0
    def x_pthread_self(self): return 1

    def intrinsic(self, n):
        b = n.split('.')
        k = b[1]
        if k in ('lifetime', 'experimental', 'dbg', 'assume', 'invariant', 'va_start', 'va_end', 'prefetch'):
            return lambda *a: None
        if k == 'memcpy' or k == 'memmove':
            return lambda d, s, c, v: self.copy(d, s, c)
        if k == 'memset':
            return lambda d, c, s, v: self.fill(d, c, s)
        if k in ('expect', 'ssa', 'launder', 'strip', 'threadlocal'):
            return lambda x, *a: x
        if n.startswith('llvm.is.constant'):
            return lambda *a: 0
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            return self.x_abort
        w = None
        mm = re.search(r'\.i(\d+)$', n)
        if mm:
            w = int(mm.group(1))
        elif re.search(r'\.v\d+i\d+$', n):
            vm = re.search(r'\.v(\d+)i(\d+)$', n)
            return self.vintrinsic(n, k, int(vm.group(1)), int(vm.group(2)))
        if w is None:
            def bad(*a):
                raise Fault('intrinsic ' + n)
            return bad
        M = (1 << w) - 1
        if len(b) > 3 and b[2] == 'with':
            return self.overflow(k, w)
        f = {
            'umin': lambda x, y: self.pick(x < y, x, y, w), 'umax': lambda x, y: self.pick(x > y, x, y, w),
            'smin': lambda x, y: self.pick(h_slt(x, y, w), x, y, w),
            'smax': lambda x, y: self.pick(h_slt(y, x, w), x, y, w),
            'usub': lambda x, y: self.pick(x >= y, (x - y) & M, 0, w),
            'uadd': lambda x, y: self.pick(((x + y) & M) < x, M, (x + y) & M, w),
            'ctpop': lambda x: bin(self.conc(x)).count('1'),
            'ctlz': lambda x, p: w - self.conc(x).bit_length(),
            'cttz': lambda x, p: (lambda v: (v & -v).bit_length() - 1 if v else w)(self.conc(x)),
            'bswap': lambda x: int.from_bytes(self.conc(x).to_bytes(w // 8, 'little'), 'big'),
            'fshl': lambda x, y, s: self.fsh(x, y, s, w, True), 'fshr': lambda x, y, s: self.fsh(x, y, s, w, False),
            'bitreverse': lambda x: int(bin(self.conc(x))[2:].rjust(w, '0')[::-1], 2),
            'abs': lambda x, p: abs(sgn(self.conc(x), w)) & M,
        }.get(k)
        if k in ('ucmp', 'scmp'):
            ow = int(re.search(r'cmp\.i(\d+)\.', n).group(1))
            OM = (1 << ow) - 1
            lt = (lambda x, y: x < y) if k == 'ucmp' else (lambda x, y: h_slt(x, y, w))
            return lambda x, y: self.pick(lt(x, y), OM, self.pick(x != y, 1, 0, ow), ow)
        if f is None:
            def bad(*a):
                raise Fault('intrinsic ' + n)
            return bad
        return f

    def vintrinsic(self, n, k, cnt, w):
        if k == 'umin':
            return lambda x, y: tuple(min(self.conc(a), self.conc(b)) for a, b in zip(x, y))
        if k == 'umax':
            return lambda x, y: tuple(max(self.conc(a), self.conc(b)) for a, b in zip(x, y))
        if k == 'vector' and '.reduce.' in n:
            op = n.split('.')[3]

            def red(x):
                x = [self.conc(a) for a in x]
                r = x[0]
                for y in x[1:]:
                    r = {'add': (r + y) & ((1 << w) - 1), 'or': r | y, 'and': r & y, 'xor': r ^ y,
                         'umax': max(r, y), 'umin': min(r, y)}[op]
                return r
            return red

        def bad(*a):
            raise Fault('intrinsic ' + n)
        return bad

    @staticmethod
    def pick(c, a, b, w):
        if c.__class__ is Sym:
            return h_sel(c, a, b, w)
        return a if c else b

    def fsh(self, x, y, s, w, left):
        s = self.conc(s) % w
        M = (1 << w) - 1
        if not left:
            s = (w - s) % w
            if s == 0:
                return y
        if s == 0:
            return x
        return ((x << s) & M) | (y >> (w - s))

    def overflow(self, k, w):
        M = (1 << w) - 1

        def f(x, y):
            if x.__class__ is Sym or y.__class__ is Sym:
                if k == 'uadd':
                    r = x + y
                    return r, r < x
                if k == 'usub':
                    return x - y, x < y
                if k == 'umul':
                    r = x * y
                    W = z3.ZeroExt(w, bv(x, w)) * z3.ZeroExt(w, bv(y, w))
                    xv = (x.v if x.__class__ is Sym else x) * (y.v if y.__class__ is Sym else y)
                    o = mk(1 if xv > M else 0, z3.If(z3.Extract(2 * w - 1, w, W) == 0, z3.BitVecVal(0, 1),
                                                     z3.BitVecVal(1, 1)), 1)
                    return r, o
                x, y = self.conc(x), self.conc(y)
            if k == 'uadd':
                r = x + y
                return r & M, r > M
            if k == 'usub':
                return (x - y) & M, x < y
            if k == 'umul':
                r = x * y
                return r & M, r > M
            a, b = sgn(x, w), sgn(y, w)
            r = a + b if k == 'sadd' else a - b if k == 'ssub' else a * b
            return r & M, not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
        return f

    # ---- running
    def reset(self, assume):
        self.sym.clear()
        self.lines.clear()
        self.sp = STACK0
        self.hp = HEAP0
        self.mem[0:self.gend] = self.ginit[0:self.gend]
        self.path = []
        self.seen = {}
        self.assume = assume
        self.ivals = {}

    def put_input(self, data, syms):
        """bytes with symbolic positions {index: BitVec}"""
        a = self.malloc(len(data))
        self.mem[a:a + len(data)] = data
        for i, e in syms.items():
            self.st(a + i, Sym(data[i], e, 8), 1)
        return a


class LazyModule(ir.Module):
    def _split(self, text):
        self.text = text
        self.fpos = {}
        for mm in re.finditer(r'^(define |declare |@|%[^\n]* = type|attributes )', text, re.M):
            i = mm.start()
            e = text.index('\n', i)
            line = text[i:e]
            k = mm.group(1)
            if k == 'define ':
                nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                self.fpos['@' + nm.group(1)] = (i, e)
            elif k == '@':
                nm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', line)
                n, rest = '@' + nm.group(1), nm.group(2)
                ma = re.match(r'.*?\balias\b\s+.*?,\s*ptr\s+(@("[^"]*"|[-\w$.]+))', rest)
                if ma and ' alias ' in ' ' + rest:
                    self.aliases[n] = ma.group(1)
                else:
                    self.gtext[n] = rest
            elif k == 'declare ':
                nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                if nm:
                    self.decls['@' + nm.group(1)] = line
            elif k.startswith('%'):
                nm = re.match(r'(%("[^"]*"|[-\w$.]+)) = type (.*)$', line)
                if nm and nm.group(3) != 'opaque':
                    try:
                        self.types[nm.group(1)] = P(tokenize(nm.group(3)), self).type()
                    except Unsupported:
                        pass

    def load(self, name):
        i, e = self.fpos[name]
        j = self.text.index('\n}\n', e)
        f = ir.Func()
        f.name = name
        f.params = self.text[i:e]
        f.lines = self.text[e + 1:j].split('\n')
        f.blocks = None
        parse_fn(self, f)
        return f


ORD = {'acquire', 'release', 'acq_rel', 'seq_cst', 'monotonic', 'unordered'}


def parse_inst(m, s):
    toks = tokenize(s)
    k = 2 if len(toks) > 1 and toks[1] == '=' else 0
    dst = toks[0] if k else None
    op = toks[k]
    if op == 'invoke':
        p = P(toks, m)
        # ... to label %a unwind label %b
        i = s.rindex(' to label ')
        ins = ir.parse_inst(m, (dst + ' = ' if dst else '') + 'call' + s[s.index('invoke') + 6:i])
        lab = re.match(r' to label (%("[^"]*"|[-\w$.]+))', s[i:]).group(1)
        return ('invoke', ins, lab)
    if op == 'cmpxchg':
        p = P(toks, m)
        p.i = k + 1
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, a = p.tv()
        p.expect(',')
        t, c = p.tv()
        p.expect(',')
        _, n = p.tv()
        return ('cmpxchg', dst, t, a, c, n)
    if op == 'atomicrmw':
        p = P(toks, m)
        p.i = k + 1
        if p.peek() == 'volatile':
            p.next()
        o = p.next()
        _, a = p.tv()
        p.expect(',')
        t, v = p.tv()
        return ('rmw', dst, o, t, a, v)
    if op == 'fence':
        return None
    if op == 'alloca':
        p = P(toks, m)
        p.i = k + 1
        t = p.type()
        return ('alloca', dst, t)
    if op in ('load', 'store') and 'atomic' in toks[k + 1:k + 3]:
        toks2 = [t for t in toks[:]]
        s = s.replace(op + ' atomic', op, 1).replace('volatile ', '', 1)
        return ir.parse_inst(m, s)
    if op == 'landingpad' or op == 'resume' or op == 'cleanup' or op == 'catch' or op == 'filter':
        return ('unsup', s)
    try:
        return ir.parse_inst(m, s)
    except Unsupported:
        return ('unsup', s)


def parse_fn(m, f):
    p0 = ir.parse_inst, ir.compute_order
    lines = []
    it = iter(f.lines)
    acc = None
    for l in it:
        s = l.strip()
        if s[:1] == ';':
            continue
        if acc is not None:
            acc += ' ' + s
            if s.startswith('to label'):
                lines.append(acc)
                acc = None
            continue
        if ' invoke ' in l or s.startswith('invoke '):
            if ' to label ' in l:
                lines.append(l)
            else:
                acc = l
            continue
        if s in ('cleanup',) or s.startswith('catch ptr') or s.startswith('filter ['):
            continue
        lines.append(l)
    f.lines = lines
    try:
        ir_parse_func(m, f)
    finally:
        pass


def ir_parse_func(m, f):
    toks = tokenize(f.params)
    k = toks.index(f.name)
    p = P(toks, m)
    p.i = k + 1
    p.expect('(')
    params = []
    if not p.eat(')'):
        while True:
            t = p.type()
            p.skip_attrs()
            params.append((t, p.next()))
            if p.eat(')'):
                break
            p.expect(',')
    f.params = params
    blocks = {}
    order = []
    cur = None
    lines = f.lines
    i = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        if not line or line[0] == ';':
            continue
        if line[0] not in ' \t':
            lab = re.match(r'("[^"]*"|[-\w$.]+):', line)
            cur = '%' + lab.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        s = line.strip()
        if not s or s[0] == ';' or s.startswith('#dbg'):
            continue
        if cur is None:
            cur = '%%%d' % sum(1 for _, n in params if n[1:].isdigit())
            blocks[cur] = []
            order.append(cur)
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ]'
            i += 1
        j = s.find(', !')
        ins = parse_inst(m, s[:j] if j > 0 else s)
        if ins is not None:
            blocks[cur].append(ins)
    f.blocks = blocks
    f.order = order
    f.lines = None


PRED = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}


class Gen:
    def __init__(self, eng, f):
        self.E = eng
        self.f = f
        self.regs = {}
        self.ty = {}

    def r(self, n):
        v = self.regs.get(n)
        if v is None:
            v = self.regs[n] = 'v%d' % len(self.regs)
        return v

    def o(self, t, v):
        if v[0] == 'r':
            return self.r(v[1])
        return repr(self.E.constval(t, v))

    def ldx(self, t, a):
        k = t[0]
        if k == 'i' or k == 'ptr':
            n = size_align(t)[0]
            s = 'ld(%s, %d)' % (a, n)
            if k == 'i' and t[1] != 8 * n:
                return 'E.tr(%s, %d)' % (s, t[1])
            return s
        return 'E.ldagg(%s, %r)' % (a, t)

    def stx(self, t, v, a):
        if t[0] in ('i', 'ptr'):
            return 'st(%s, %s, %d)' % (a, v, size_align(t)[0])
        return 'E.stagg(%s, %s, %r)' % (a, v, t)

    def inst(self, ins):
        op = ins[0]
        o = self.o
        if op == 'bin':
            _, d, k, t, a, b = ins
            if t[0] == 'vec':
                return '%s = E.vbin(%r, %s, %s, %d)' % (self.r(d), k, o(t, a), o(t, b), bits_of(t[2]))
            n = t[1]
            M = (1 << n) - 1
            a, b = o(t, a), o(t, b)
            if k in ('add', 'sub', 'mul', 'shl'):
                s = '(%s %s %s) & %d' % (a, {'add': '+', 'sub': '-', 'mul': '*', 'shl': '<<'}[k], b, M)
            elif k in ('and', 'or', 'xor'):
                s = '%s %s %s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[k], b)
            elif k == 'lshr':
                s = '%s >> %s' % (a, b)
            elif k == 'udiv':
                s = '%s // %s' % (a, b)
            elif k == 'urem':
                s = '%s %% %s' % (a, b)
            else:
                s = 'h_%s(%s, %s, %d)' % (k, a, b, n)
            return '%s = %s' % (self.r(d), s)
        if op == 'icmp':
            _, d, k, t, a, b = ins
            if t[0] == 'vec':
                return '%s = E.vcmp(%r, %s, %s, %d)' % (self.r(d), k, o(t, a), o(t, b), bits_of(t[2]))
            a, b = o(t, a), o(t, b)
            if k in PRED:
                return '%s = %s %s %s' % (self.r(d), a, PRED[k], b)
            n = bits_of(t)
            if k == 'slt':
                s = 'h_slt(%s, %s, %d)' % (a, b, n)
            elif k == 'sgt':
                s = 'h_slt(%s, %s, %d)' % (b, a, n)
            elif k == 'sle':
                s = 'h_sle(%s, %s, %d)' % (a, b, n)
            else:
                s = 'h_sle(%s, %s, %d)' % (b, a, n)
            return '%s = %s' % (self.r(d), s)
        if op == 'cast':
            _, d, k, ft, v, tt = ins
            x = o(ft, v)
            D = self.r(d)
            if ft[0] == 'vec' or tt[0] == 'vec':
                return '%s = E.vcast(%r, %r, %s, %r)' % (D, k, ft, x, tt)
            fn, tn = bits_of(ft), bits_of(tt)
            if k == 'sext':
                return '%s = h_sext(%s, %d, %d)' % (D, x, fn, tn)
            if fn == tn:
                return '%s = %s' % (D, x)
            if fn < tn:
                if v[0] != 'r':
                    return '%s = %s' % (D, x)
                return '%s = %s if %s.__class__ is not Sym else %s.zext(%d)' % (D, x, x, x, tn)
            if v[0] != 'r':
                return '%s = %s & %d' % (D, x, (1 << tn) - 1)
            return '%s = %s & %d if %s.__class__ is not Sym else %s.trunc(%d)' % (D, x, (1 << tn) - 1, x, x, tn)
        if op == 'select':
            _, d, t, c, a, b, ct = ins
            if ct[0] == 'vec':
                return '%s = tuple(y if x else z for x, y, z in zip(%s, %s, %s))' % (self.r(d), o(ct, c), o(t, a), o(t, b))
            c, a, b = o(('i', 1), c), o(t, a), o(t, b)
            n = bits_of(t) if t[0] in ('i', 'ptr') else 0
            return '%s = (%s if %s else %s) if %s.__class__ is not Sym else h_sel(%s, %s, %s, %d)' % (
                self.r(d), a, c, b, '(%s)' % c, c, a, b, n)
        if op == 'load':
            _, d, t, a = ins
            return '%s = %s' % (self.r(d), self.ldx(t, o(PTR, a)))
        if op == 'store':
            _, t, v, a = ins
            return self.stx(t, o(t, v), o(PTR, a))
        if op == 'gep':
            return self.gep(ins)
        if op == 'alloca':
            _, d, t = ins
            sz, al = size_align(t)
            return '%s = E.alloca(%d)' % (self.r(d), max(sz, 1))
        if op == 'call':
            return self.call(ins)
        if op == 'extractvalue':
            _, d, t, v, idx = ins
            return '%s = %s%s' % (self.r(d), o(t, v), ''.join('[%d]' % i for i in idx))
        if op == 'insertvalue':
            _, d, t, v, et, e, idx = ins
            return '%s = E.insv(%s, %s, %r)' % (self.r(d), o(t, v), o(et, e), tuple(idx))
        if op == 'freeze':
            _, d, t, v = ins
            return '%s = %s' % (self.r(d), o(t, v))
        if op == 'cmpxchg':
            _, d, t, a, c, n = ins
            return '%s = E.cmpxchg(%s, %s, %s, %d)' % (self.r(d), o(PTR, a), o(t, c), o(t, n), size_align(t)[0])
        if op == 'rmw':
            _, d, k, t, a, v = ins
            return '%s = E.rmw(%r, %s, %s, %d)' % (self.r(d), k, o(PTR, a), o(t, v), size_align(t)[0])
        if op == 'extractelement':
            _, d, t, v, i = ins
            return '%s = %s[E.conc(%s)]' % (self.r(d), o(t, v), o(('i', 64), i))
        if op == 'insertelement':
            _, d, t, v, e, i = ins
            return '%s = E.insv(%s, %s, (E.conc(%s),))' % (self.r(d), o(t, v), o(t[2], e), o(('i', 64), i))
        if op == 'shufflevector':
            _, d, t, a, b, mt, mv = ins
            return '%s = E.shuf(%s, %s, %s)' % (self.r(d), o(t, a), o(t, b), o(mt, mv))
        if op == 'unsup':
            return 'raise Fault(%r)' % ('unsupported ' + ins[1][:100])
        raise Fault('inst %r' % (op,))

    def gep(self, ins):
        _, d, t, base, idx = ins
        o = self.o
        c = 0
        terms = []
        for i, (it, iv) in enumerate(idx):
            if i == 0:
                s = size_align(t)[0]
            elif t[0] == 'struct':
                x = self.E.constval(it, iv)
                c += struct_offsets(t)[x]
                t = t[2][x]
                continue
            else:
                t = t[2]
                s = size_align(t)[0]
            if iv[0] == 'r':
                n = bits_of(it)
                x = self.r(iv[1])
                if n < 64:
                    x = 'h_sext(%s, %d, 64)' % (x, n)
                terms.append(x if s == 1 else '%s * %d' % (x, s))
            else:
                c += s * sgn(self.E.constval(it, iv), bits_of(it))
        b = o(PTR, base)
        e = ' + '.join([b] + terms + ([str(c)] if c else []))
        return '%s = (%s) & 18446744073709551615' % (self.r(d), e)

    def call(self, ins):
        _, d, rt, callee, args, attrs = ins
        al = ', '.join(self.o(t, v) for t, v in args if t[0] != 'metadata')
        if callee[0] == 'g':
            nm = callee[1]
            base = nm[1:].strip('"')
            if base.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume')):
                return 'pass'
            if base.startswith('llvm.experimental'):
                return 'pass'
            s = '%s(%s)' % (self.E.fnref(nm), al)
        else:
            s = 'callptr(%s)' % ', '.join(x for x in (self.o(PTR, callee), al) if x)
        return ('%s = ' % self.r(d) if d else '') + s

    def edge(self, src, dst):
        """phi assignments for the edge, then the jump"""
        L, R = [], []
        for ins in self.f.blocks[dst]:
            if ins[0] != 'phi':
                break
            _, d, t, inc = ins
            L.append(self.r(d))
            R.append(self.o(t, inc[src]))
        out = []
        if L:
            if len(L) == 1:
                if L[0] != R[0]:
                    out.append('%s = %s' % (L[0], R[0]))
            else:
                out.append('%s = %s' % (', '.join(L), ', '.join(R)))
        out.append('b = %d' % self.bid[dst])
        return out

    def block(self, name):
        out = []
        for ins in self.f.blocks[name]:
            op = ins[0]
            if op == 'phi':
                continue
            if op == 'br':
                out += self.edge(name, ins[1])
            elif op == 'cbr':
                out.append('if %s:' % self.o(('i', 1), ins[1]))
                out += ['    ' + x for x in self.edge(name, ins[2])]
                out.append('else:')
                out += ['    ' + x for x in self.edge(name, ins[3])]
            elif op == 'switch':
                _, t, v, dflt, cases = ins
                v = self.o(t, v)
                tab = {}
                for cv, lab in cases:
                    tab[cv] = self.bid[lab]
                out.append('b = E.switch(%s, %r, %d)' % (v, tab, self.bid[dflt]))
                for lab in dict.fromkeys([dflt] + [l for _, l in cases]):
                    ed = self.edge(name, lab)
                    if len(ed) > 1:
                        out.append('if b == %d: %s' % (self.bid[lab], ed[0]))
            elif op == 'ret':
                if self.sp:
                    out.append('E.sp = sp0')
                out.append('return' + ('' if ins[1] is None else ' ' + self.o(ins[1], ins[2])))
            elif op == 'unreachable':
                out.append('raise Fault("unreachable")')
            elif op == 'invoke':
                out.append(self.inst(ins[1]))
                out += self.edge(name, ins[2])
            else:
                out.append(self.inst(ins))
        return out

    def source(self, p):
        f = self.f
        reach = []
        seen = set()
        todo = [f.order[0]]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            ins = f.blocks[b]
            if not ins:
                continue
            l = ins[-1]
            todo += [l[2]] if l[0] == 'invoke' else ir.succs(l)
        reach = [b for b in f.order if b in seen]
        self.bid = {b: i for i, b in enumerate(reach)}
        self.sp = any(i[0] == 'alloca' for b in reach for i in f.blocks[b])
        lines = ['def %s(%s):' % (p, ', '.join(self.r(n) for _, n in f.params))]
        if self.sp:
            lines.append('  sp0 = E.sp')
        if len(reach) == 1:
            lines += ['  ' + x for x in self.block(reach[0])]
        else:
            lines.append('  b = 0')
            lines.append('  while 1:')
            bodies = [self.block(b) for b in reach]

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    lines.extend(ind + x for x in bodies[lo] or ['pass'])
                    return
                mid = (lo + hi) // 2
                lines.append(ind + 'if b < %d:' % mid)
                tree(lo, mid, ind + ' ')
                lines.append(ind + 'else:')
                tree(mid, hi, ind + ' ')
            tree(0, len(bodies), '   ')
        return '\n'.join(lines)


def compile_fn(eng, name, p):
    f = eng.m.load(name)
    src = Gen(eng, f).source(p)
    d = eng.G
    eng.encoded.add(name)
    exec(compile(src, name, 'exec'), d)
    fn = d[p]
    if eng.stop and eng.stop(name):
        def stopper(*a):
            raise Stop(name)
        return stopper
    return fn


# ---- helpers used by the generated code
def _alloca(self, n):
    p = (self.sp + 15) & ~15
    self.sp = p + n
    if self.sp > HEAP0:
        raise Fault('stack')
    return p


def _switch(self, v, tab, d):
    if v.__class__ is not Sym:
        return tab.get(v, d)
    for c, b in tab.items():
        if v == c:
            return b
    return d


def _tr(self, v, n):
    return v.trunc(n) if v.__class__ is Sym else v & ((1 << n) - 1)


def _ldagg(self, a, t):
    if t[0] in ('i', 'ptr'):
        n = size_align(t)[0]
        v = self.ld(a, n)
        return _tr(self, v, t[1]) if t[0] == 'i' and t[1] != 8 * n else v
    if t[0] == 'vec' and bits_of(t[2]) % 8:           # packed
        n = t[1] * bits_of(t[2])
        return _vcast(self, 'bitcast', ('i', n), self.ld(a, (n + 7) // 8), t)
    if t[0] in ('arr', 'vec'):
        s = size_align(t[2])[0]
        return tuple(_ldagg(self, a + i * s, t[2]) for i in range(t[1]))
    return tuple(_ldagg(self, a + o, x) for o, x in zip(struct_offsets(t), t[2]))


def _stagg(self, a, v, t):
    if t[0] in ('i', 'ptr'):
        return self.st(a, v, size_align(t)[0])
    if t[0] == 'vec' and bits_of(t[2]) % 8:
        n = t[1] * bits_of(t[2])
        return self.st(a, _vcast(self, 'bitcast', t, v, ('i', n)), (n + 7) // 8)
    if t[0] in ('arr', 'vec'):
        s = size_align(t[2])[0]
        for i in range(t[1]):
            _stagg(self, a + i * s, v[i], t[2])
        return
    for o, x, y in zip(struct_offsets(t), t[2], v):
        _stagg(self, a + o, y, x)


def _insv(self, v, e, idx):
    l = list(v)
    l[idx[0]] = e if len(idx) == 1 else _insv(self, l[idx[0]], e, idx[1:])
    return tuple(l)


def _cmpxchg(self, a, c, n, sz):
    o = self.ld(a, sz)
    if o == c:
        self.st(a, n, sz)
        return (o, 1)
    return (o, 0)


def _rmw(self, k, a, v, sz):
    o = self.ld(a, sz)
    M = (1 << (8 * sz)) - 1
    r = {'add': lambda: (o + v) & M, 'sub': lambda: (o - v) & M, 'xchg': lambda: v, 'or': lambda: o | v,
         'and': lambda: o & v, 'xor': lambda: o ^ v}[k]()
    self.st(a, r, sz)
    return o


def _vbin(self, k, a, b, n):
    M = (1 << n) - 1
    f = {'add': lambda x, y: (x + y) & M, 'sub': lambda x, y: (x - y) & M, 'mul': lambda x, y: (x * y) & M,
         'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
         'shl': lambda x, y: (x << y) & M, 'lshr': lambda x, y: x >> y, 'ashr': lambda x, y: h_ashr(x, y, n)}[k]
    return tuple(f(x, y) for x, y in zip(a, b))


def _vcmp(self, k, a, b, n):
    f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y,
         'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y, 'slt': lambda x, y: h_slt(x, y, n),
         'sgt': lambda x, y: h_slt(y, x, n), 'sle': lambda x, y: h_sle(x, y, n), 'sge': lambda x, y: h_sle(y, x, n)}[k]
    return tuple(f(x, y) for x, y in zip(a, b))


def _vcast(self, k, ft, v, tt):
    if k == 'bitcast':
        if ft[0] == 'vec':
            n = bits_of(ft[2])
            x = 0
            for i, y in enumerate(v):
                x |= int(self.conc(y)) << (n * i)
        else:
            x = self.conc(v)
        if tt[0] == 'vec':
            n = bits_of(tt[2])
            return tuple((x >> (n * i)) & ((1 << n) - 1) for i in range(tt[1]))
        return x
    fn, tn = bits_of(ft[2]), bits_of(tt[2])
    if k == 'sext':
        return tuple(h_sext(x, fn, tn) for x in v)
    if k in ('zext', 'inttoptr', 'ptrtoint'):
        return tuple(x.zext(tn) if x.__class__ is Sym else int(x) for x in v)
    return tuple(_tr(self, x, tn) for x in v)


def _shuf(self, a, b, m):
    l = tuple(a) + tuple(b)
    return tuple(l[i] if i < len(l) else 0 for i in m)


for _n in ('alloca', 'switch', 'tr', 'ldagg', 'stagg', 'insv', 'cmpxchg', 'rmw', 'vbin', 'vcmp', 'vcast', 'shuf'):
    setattr(Engine, _n, globals()['_' + _n])
