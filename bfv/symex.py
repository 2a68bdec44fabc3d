"""Symbolic execution of LLVM IR into z3 bit-vector terms.

Every call is executed with all feasible paths; paths are merged at control
flow joins (guarded if-then-else), so a run of a function yields ONE final
state: a path condition under which it returns, the memory, and a list of
events (panics, unreachable code, out-of-bounds accesses) with their
conditions.  Loops are unrolled for as long as the path condition of the next
iteration is satisfiable (decided by the solver), up to MAX_UNROLL."""
import z3
from .ir import (Unsupported, size_align, struct_offsets, PTR, VOID)

MAX_UNROLL = 20000
CTX = None

BV = z3.BitVecVal


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
_fresh = [0]


def fresh_bv(n, tag='undef'):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (tag, _fresh[0]), n)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off          # int or BV64

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


NULL = Ptr(0, 0)


class PInt:
    """a pointer known only by its integer value (bytes that are a pointer on
    one path and data on another); dereferenced by enumerating its values"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def to_bv(v, n):
    """value of integer type i<n> as z3 bit-vector"""
    if isinstance(v, int):
        return BV(v, n)
    if v is UNDEF:
        return fresh_bv(n)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, BV(1, n), BV(0, n))
    return v


def to_bool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if v is UNDEF:
        _fresh[0] += 1
        return z3.Bool('undef!%d' % _fresh[0])
    if isinstance(v, z3.BitVecRef):
        return v == 1
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class Event:
    __slots__ = ('kind', 'detail', 'cond')

    def __init__(self, kind, detail, cond):
        self.kind = kind
        self.detail = detail
        self.cond = cond


class Obj:
    """meta data of a memory object; contents live in the state"""
    __slots__ = ('name', 'size', 'const', 'base')

    def __init__(self, name, size, const, base):
        self.name = name
        self.size = size
        self.const = const
        self.base = base


class State:
    __slots__ = ('pc', 'mem', 'log', 'env')

    def __init__(self, pc, mem, log, env):
        self.pc = pc        # list of z3 Bool conjuncts
        self.mem = mem      # objid -> list of cells
        self.log = log      # recorded external calls: list
        self.env = env


def conj(l):
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def neg(c):
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


class Exec:
    def __init__(self, module, stubs=None):
        self.m = module
        self.stubs = stubs or {}
        self.objs = {0: Obj('null', 0, True, 0)}
        self.nobj = 1
        self.gobj = {}
        self.events = []
        self.solver = z3.Solver()
        self.scache = {}
        self.solver.set('timeout', 60000)
        self.base_mem = {}
        self.encoded = {}           # function -> instruction count executed
        self.queries = 0
        self.stub_used = set()
        self.fnaddr = {}

    # ------------------------------------------------------- memory objects
    def new_obj(self, name, size, const=False):
        i = self.nobj
        self.nobj += 1
        self.objs[i] = Obj(name, size, const, (i + 1) << 32)
        return i

    def global_ptr(self, name):
        if name in self.m.funcs or name in self.m.decls or name in self.m.aliases:
            return FnPtr(name)
        o = self.gobj.get(name)
        if o is None:
            g = self.m.global_init(name)
            if g is None:
                raise Unsupported('global ' + name)
            t, v = g
            sz, _ = size_align(t)
            o = self.new_obj(name, sz, True)
            self.gobj[name] = o
            cells = [UNDEF] * sz
            if v is not None:
                self.fill_const(cells, 0, t, v)
            self.base_mem[o] = cells
        return Ptr(o, 0)

    def fill_const(self, cells, off, t, v):
        k = v[0]
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = b
        elif k == 'agg':
            if t[0] == 'struct':
                offs = struct_offsets(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self.fill_const(cells, off + o, et, ev)
            else:
                es, _ = size_align(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.fill_const(cells, off + i * es, et, ev)
        elif k == 'zero':
            for i in range(size_align(t)[0]):
                cells[off + i] = 0
        elif k == 'undef':
            pass
        else:
            val = self.const(t, v)
            self.put(cells, off, t, val)

    def const(self, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            if t[0] in ('struct',):
                return [self.const(f, v) for f in t[2]]
            if t[0] in ('arr', 'vec'):
                return [self.const(t[2], v) for _ in range(t[1])]
            return UNDEF
        if k == 'zero':
            if t[0] == 'i':
                return 0
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return [self.const(f, v) for f in t[2]]
            return [self.const(t[2], v) for _ in range(t[1])]
        if k == 'agg':
            return [self.const(et, ev) for et, ev in v[1]]
        if k == 'g':
            return self.global_ptr(v[1])
        if k == 'bytes':
            return list(v[1])
        if k == 'cgep':
            base = self.const(PTR, v[2])
            return self.gep(v[1], base, [(it, self.const(it, iv)) for it, iv in v[3]])
        if k == 'ccast':
            return self.cast(v[1], v[2], self.const(v[2], v[3]), v[4])
        if k == 'cbin':
            return self.binop(v[1], v[2], self.const(v[2], v[3]), self.const(v[2], v[4]))
        raise Unsupported('const %r' % (v,))

    # ------------------------------------------------------------- cells
    @staticmethod
    def cell_bv(c):
        if isinstance(c, int):
            return BV(c, 8)
        if c is UNDEF:
            return fresh_bv(8)
        e, k = c
        if isinstance(e, (Ptr, PtrIte, FnPtr)):
            raise Unsupported('pointer bytes as integer')
        if e.size() == 8:
            return e
        return z3.Extract(8 * k + 7, 8 * k, e)

    def put(self, cells, off, t, v):
        """store v of type t at concrete offset"""
        k = t[0]
        if k == 'i':
            n = t[1]
            sz = (n + 7) // 8
            if v is UNDEF:
                for i in range(sz):
                    cells[off + i] = UNDEF
            elif isinstance(v, int):
                for i in range(sz):
                    cells[off + i] = (v >> (8 * i)) & 0xff
            else:
                v = to_bv(v, n) if n != 1 or not isinstance(v, z3.BoolRef) else z3.If(v, BV(1, 8), BV(0, 8))
                if v.size() != 8 * sz:
                    v = z3.ZeroExt(8 * sz - v.size(), v)
                for i in range(sz):
                    cells[off + i] = (v, i)
        elif k == 'ptr':
            if isinstance(v, PInt):
                v = v.v
            for i in range(8):
                cells[off + i] = (v, i) if v is not UNDEF else UNDEF
            if isinstance(v, Ptr) and v.obj == 0 and isinstance(v.off, int):
                for i in range(8):
                    cells[off + i] = (v.off >> (8 * i)) & 0xff
        elif k == 'struct':
            if v is UNDEF:
                v = [UNDEF] * len(t[2])
            for o, ft, fv in zip(struct_offsets(t), t[2], v):
                self.put(cells, off + o, ft, fv)
        elif k == 'arr':
            es, _ = size_align(t[2])
            if v is UNDEF:
                v = [UNDEF] * t[1]
            for i, fv in enumerate(v):
                self.put(cells, off + i * es, t[2], fv)
        elif k == 'vec':
            if t[2][0] != 'i' or t[2][1] % 8:
                raise Unsupported('store of %r' % (t,))
            if v is UNDEF:
                v = [UNDEF] * t[1]
            es = t[2][1] // 8
            for i, fv in enumerate(v):
                self.put(cells, off + i * es, t[2], fv)
        else:
            raise Unsupported('store of %r' % (t,))

    def get(self, cells, off, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            sz = (n + 7) // 8
            cs = cells[off:off + sz]
            if all(isinstance(c, int) for c in cs):
                v = 0
                for i, c in enumerate(cs):
                    v |= c << (8 * i)
                return v & ((1 << n) - 1)
            if all(c is UNDEF for c in cs):
                return UNDEF
            if any(isinstance(c, tuple) and isinstance(c[0], (Ptr, PtrIte, FnPtr)) for c in cs):
                conv = {}
                for i, c in enumerate(cs):
                    if isinstance(c, tuple) and isinstance(c[0], (Ptr, PtrIte, FnPtr)):
                        if id(c[0]) not in conv:
                            conv[id(c[0])] = self.ptr_int(c[0])
                        cs[i] = (conv[id(c[0])], c[1])
            c0 = cs[0]
            v = None
            if isinstance(c0, tuple):
                e, k0 = c0
                if all(isinstance(c, tuple) and c[0] is e and c[1] == k0 + i for i, c in enumerate(cs)):
                    if e.size() == 8 * sz:
                        v = e
                    else:
                        v = z3.Extract(8 * (k0 + sz) - 1, 8 * k0, e)
            if v is None:
                if sz == 1:
                    v = self.cell_bv(c0)
                else:
                    v = self.concat_cells(cs)
            if n == 1:
                return z3.Extract(0, 0, v) == 1
            if v.size() != n:
                v = z3.Extract(n - 1, 0, v)
            return v
        if k == 'ptr':
            cs = cells[off:off + 8]
            if all(isinstance(c, int) for c in cs):
                v = 0
                for i, c in enumerate(cs):
                    v |= c << (8 * i)
                return self.int2ptr(v)
            if all(c is UNDEF for c in cs):
                return UNDEF
            c0 = cs[0]
            if isinstance(c0, tuple) and isinstance(c0[0], (Ptr, PtrIte, FnPtr)):
                if all(isinstance(c, tuple) and c[0] is c0[0] and c[1] == i for i, c in enumerate(cs)):
                    return c0[0]
            v = self.get(cells, off, ('i', 64))
            return self.int2ptr(v)
        if k == 'struct':
            return [self.get(cells, off + o, ft) for o, ft in zip(struct_offsets(t), t[2])]
        if k == 'arr':
            es, _ = size_align(t[2])
            return [self.get(cells, off + i * es, t[2]) for i in range(t[1])]
        if k == 'vec':
            if t[2][0] != 'i' or t[2][1] % 8:
                raise Unsupported('load of %r' % (t,))
            es = t[2][1] // 8
            return [self.get(cells, off + i * es, t[2]) for i in range(t[1])]
        raise Unsupported('load of %r' % (t,))

    def concat_cells(self, cs):
        # group runs of slices of the same expression
        parts = []
        i = 0
        n = len(cs)
        while i < n:
            c = cs[i]
            if isinstance(c, tuple) and not isinstance(c[0], (Ptr, PtrIte, FnPtr)):
                e, k = c
                j = i + 1
                while j < n and isinstance(cs[j], tuple) and cs[j][0] is e and cs[j][1] == k + (j - i):
                    j += 1
                w = j - i
                if e.size() == 8 * w:
                    parts.append(e)
                else:
                    parts.append(z3.Extract(8 * (k + w) - 1, 8 * k, e))
                i = j
            elif isinstance(c, int):
                j = i
                v = 0
                while j < n and isinstance(cs[j], int):
                    v |= cs[j] << (8 * (j - i))
                    j += 1
                parts.append(BV(v, 8 * (j - i)))
                i = j
            else:
                parts.append(self.cell_bv(c))
                i += 1
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*reversed(parts))

    def fn_addr(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = self.fnaddr[name] = (1 << 48) + 16 * len(self.fnaddr)
        return a

    def ptr_int(self, p):
        return to_bv(self.cast('ptrtoint', PTR, p, ('i', 64)), 64)

    def int2ptr(self, v):
        if isinstance(v, int):
            ob = v >> 32
            for i, o in self.objs.items():
                if i and o.base >> 32 == ob:
                    return Ptr(i, v & 0xffffffff)
            return Ptr(0, v)
        return PInt(v)

    # -------------------------------------------------------- memory access
    def resolve(self, st, p):
        """-> list of (extra_cond or None, Ptr)"""
        if isinstance(p, Ptr):
            return [(None, p)]
        if isinstance(p, PtrIte):
            out = []
            for c, q in self.resolve(st, p.a):
                out.append((p.c if c is None else z3.And(p.c, c), q))
            nc = neg(p.c)
            for c, q in self.resolve(st, p.b):
                out.append((nc if c is None else z3.And(nc, c), q))
            return out
        if isinstance(p, PInt):
            # every value the address can take on this path (complete or unsupported)
            out = []
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(self.solver.assertions())
            s.add(*[to_bool(c) for c in st.pc])
            while True:
                r = s.check()
                if r == z3.unsat:
                    return out
                if r != z3.sat or len(out) >= 12:
                    raise Unsupported('pointer with many possible values')
                v = s.model().eval(p.v, model_completion=True).as_long()
                q = self.int2ptr(v)
                out.append((p.v == BV(v, 64), q))
                s.add(p.v != BV(v, 64))
        raise Unsupported('pointer %r' % (p,))

    def cells_of(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            c = self.base_mem.get(obj)
        if c is None:
            raise Unsupported('dangling object %s' % self.objs[obj].name)
        return c

    def offsets(self, st, obj, off, sz):
        """possible concrete offsets for a symbolic offset (all in bounds)"""
        n = self.objs[obj].size
        return range(0, n - sz + 1)

    def event(self, kind, detail, st, extra=None):
        c = list(st.pc)
        if extra is not None:
            c.append(extra)
        self.events.append(Event(kind, detail, conj(c)))

    def feasible(self, conds):
        if not conds:
            return True
        self.queries += 1
        self.solver.push()
        try:
            for c in conds:
                self.solver.add(c)
            r = self.solver.check()
            return r != z3.unsat
        finally:
            self.solver.pop()

    def load(self, st, t, p):
        res = None
        for cond, q in reversed(self.resolve(st, p)):
            v = self.load1(st, t, q, cond)
            if v is None:
                continue
            res = v if res is None or cond is None else self.ite(cond, v, res, t)
        if res is None:
            return UNDEF
        return res

    def load1(self, st, t, q, cond):
        sz, _ = size_align(t)
        if t[0] == 'i':
            sz = (t[1] + 7) // 8
        if sz == 0:
            return self.const(t, ('undef',))
        if q.obj == 0:
            self.event('ub', 'load through null/dangling pointer', st, cond)
            return None
        n = self.objs[q.obj].size
        off = q.off
        if is_sym(off):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_long()
        if isinstance(off, int):
            if off + sz > n:
                self.event('ub', 'out of bounds load', st, cond)
                return None
            return self.get(self.cells_of(st, q.obj), off, t)
        cells = self.cells_of(st, q.obj)
        oob = z3.UGT(off, BV(n - sz, 64)) if n >= sz else z3.BoolVal(True)
        extra = oob if cond is None else z3.And(cond, oob)
        self.event('ub', 'out of bounds load', st, extra)
        if n < sz:
            return None
        es = self.stride(q, t)
        res = None
        for o in range(n - sz, -1, -1):
            if o % es[0] != es[1]:
                continue
            v = self.get(cells, o, t)
            res = v if res is None else self.ite(off == BV(o, 64), v, res, t)
        return res

    def stride(self, q, t):
        """(step, rem): a provable stride of the symbolic offset"""
        off = q.off
        # recognise const*idx (+const)
        return (1, 0)

    def store(self, st, t, v, p):
        for cond, q in self.resolve(st, p):
            self.store1(st, t, v, q, cond)

    def own(self, st, obj):
        cells = list(self.cells_of(st, obj))
        st.mem[obj] = cells
        return cells

    def store1(self, st, t, v, q, cond):
        sz, _ = size_align(t)
        if t[0] == 'i':
            sz = (t[1] + 7) // 8
        if sz == 0:
            return
        if q.obj == 0:
            self.event('ub', 'store through null/dangling pointer', st, cond)
            return
        if self.objs[q.obj].const:
            self.event('ub', 'store to constant', st, cond)
            return
        n = self.objs[q.obj].size
        off = q.off
        if is_sym(off):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_long()
        if isinstance(off, int):
            if off + sz > n:
                self.event('ub', 'out of bounds store', st, cond)
                return
            cells = self.own(st, q.obj)
            if cond is None:
                self.put(cells, off, t, v)
            else:
                old = cells[off:off + sz]
                self.put(cells, off, t, v)
                self.merge_range(cells, off, sz, cond, old)
            return
        oob = z3.UGT(off, BV(n - sz, 64)) if n >= sz else z3.BoolVal(True)
        extra = oob if cond is None else z3.And(cond, oob)
        self.event('ub', 'out of bounds store', st, extra)
        if n < sz:
            return
        cells = self.own(st, q.obj)
        for o in range(0, n - sz + 1):
            c = off == BV(o, 64)
            if cond is not None:
                c = z3.And(cond, c)
            old = cells[o:o + sz]
            self.put(cells, o, t, v)
            self.merge_range(cells, o, sz, c, old)

    def merge_range(self, cells, off, sz, cond, old):
        cache = {}
        for i in range(sz):
            cells[off + i] = self.merge_cell(cond, cells[off + i], old[i], cache)

    def merge_cell(self, cond, a, b, cache):
        if a is b:
            return a
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[1] == b[1]:
                if a[0] is b[0]:
                    return a
                key = (id(a[0]), id(b[0]))
                e = cache.get(key)
                if e is None:
                    x, y = a[0], b[0]
                    if isinstance(x, (Ptr, PtrIte, FnPtr)) or isinstance(y, (Ptr, PtrIte, FnPtr)):
                        if isinstance(x, (Ptr, PtrIte, FnPtr)) and isinstance(y, (Ptr, PtrIte, FnPtr)):
                            e = x if same(x, y) else PtrIte(cond, x, y)
                    elif x.size() == y.size():
                        e = x if x.eq(y) else z3.If(cond, x, y)
                    cache[key] = (e, x, y)
                else:
                    e = e[0]
                if e is not None:
                    return (e, a[1])
        # pointer vs. null bytes
        pa = isinstance(a, tuple) and isinstance(a[0], (Ptr, PtrIte, FnPtr))
        pb = isinstance(b, tuple) and isinstance(b[0], (Ptr, PtrIte, FnPtr))
        if pa or pb:
            if pa and not pb and (b == 0 if isinstance(b, int) else b is UNDEF):
                if b is UNDEF:
                    return a
                key = (id(a[0]), 'null')
                e = cache.get(key)
                if e is None:
                    e = cache[key] = (PtrIte(cond, a[0], NULL), a[0])
                return (e[0], a[1])
            if pb and not pa and (a == 0 if isinstance(a, int) else a is UNDEF):
                if a is UNDEF:
                    return b
                key = ('null', id(b[0]))
                e = cache.get(key)
                if e is None:
                    e = cache[key] = (PtrIte(cond, NULL, b[0]), b[0])
                return (e[0], b[1])
            # pointer bytes on one path, data on the other: use the address
            def num(c, isp):
                if not isp:
                    return c
                key = ('int', id(c[0]))
                e = cache.get(key)
                if e is None:
                    e = cache[key] = (self.ptr_int(c[0]), c[0])
                return (e[0], c[1])
            return self.merge_cell(cond, num(a, pa), num(b, pb), cache)
        if a is UNDEF:
            return b if b is UNDEF else (z3.If(cond, fresh_bv(8), self.cell_bv(b)), 0)
        return (z3.If(cond, self.cell_bv(a), self.cell_bv(b)), 0)

    # ------------------------------------------------------------ operators
    def ite(self, c, a, b, t):
        if same(a, b):
            return a
        if isinstance(c, int):
            return a if c & 1 else b
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                if isinstance(a, int) and isinstance(b, int):
                    return c if a else neg(c)
                return z3.If(c, to_bool(a), to_bool(b))
            return z3.If(c, to_bv(a, t[1]), to_bv(b, t[1]))
        if k == 'ptr':
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, z3.If(c, to_bv(a.off, 64), to_bv(b.off, 64)))
            return PtrIte(c, a, b)
        if k == 'struct':
            if a is UNDEF:
                a = [UNDEF] * len(t[2])
            if b is UNDEF:
                b = [UNDEF] * len(t[2])
            return [self.ite(c, x, y, ft) for x, y, ft in zip(a, b, t[2])]
        if k in ('arr', 'vec'):
            if a is UNDEF:
                a = [UNDEF] * t[1]
            if b is UNDEF:
                b = [UNDEF] * t[1]
            return [self.ite(c, x, y, t[2]) for x, y in zip(a, b)]
        raise Unsupported('ite %r' % (t,))

    def merge_untyped(self, c, a, b):
        if same(a, b):
            return a
        if isinstance(a, (Ptr, PtrIte, PInt, FnPtr)) and isinstance(b, (Ptr, PtrIte, PInt, FnPtr)):
            return self.ite(c, a, b, PTR)
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
            return z3.If(c, a, b)
        if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef):
            return z3.If(c, a, b)
        if isinstance(a, z3.BitVecRef) and isinstance(b, int):
            return z3.If(c, a, to_bv(b, a.size()))
        if isinstance(b, z3.BitVecRef) and isinstance(a, int):
            return z3.If(c, to_bv(a, b.size()), b)
        return ('int', c, a, b)     # two ints of unknown width: resolved lazily

    def binop(self, op, t, a, b):
        if t[0] == 'vec':
            n = t[1]
            a = a if isinstance(a, list) else [UNDEF] * n
            b = b if isinstance(b, list) else [UNDEF] * n
            return [self.binop(op, t[2], x, y) for x, y in zip(a, b)]
        n = t[1]
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    return UNDEF
                if op == 'shl':
                    return (a << b) & M
                if op == 'lshr':
                    return a >> b
                s = a - (1 << n) if a >> (n - 1) else a
                return (s >> b) & M
            if b == 0:
                return UNDEF
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) & M
        if n == 1:
            if op == 'and' and (a == 0 if isinstance(a, int) else (isinstance(b, int) and b == 0)):
                return 0
            if op == 'and':
                if isinstance(a, int):
                    return b
                if isinstance(b, int):
                    return a
                return z3.And(to_bool(a), to_bool(b))
            if op == 'or':
                if isinstance(a, int):
                    return 1 if a else b
                if isinstance(b, int):
                    return 1 if b else a
                return z3.Or(to_bool(a), to_bool(b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, int):
                    return neg(to_bool(b)) if a else b
                if isinstance(b, int):
                    return neg(to_bool(a)) if b else a
                return z3.Xor(to_bool(a), to_bool(b))
            if op == 'mul':
                return z3.And(to_bool(a), to_bool(b))
            if op in ('shl', 'lshr', 'ashr'):
                return a
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and op in ('and', 'or', 'xor', 'add', 'mul'):
            a, b = b, a
        if n >= 32 and isinstance(b, int) and op in ('and', 'lshr') and isinstance(a, z3.BitVecRef):
            a = self.csimp(a)
            if isinstance(a, int):
                return self.binop(op, t, a, b)
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if op == 'and':
                if b == 0:
                    return 0
                if b == M:
                    return a
            if op == 'or' and b == M:
                return M
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'shl', 'lshr', 'ashr', 'mul'):
                return 0
            if op == 'and' and a == M:
                return b
        x = to_bv(a, n)
        y = to_bv(b, n)
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Unsupported(op)

    def icmp(self, pred, t, a, b):
        if t[0] == 'ptr':
            return self.ptr_cmp(pred, a, b)
        if t[0] == 'vec':
            return [self.icmp(pred, t[2], x, y) for x, y in zip(a, b)]
        n = t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a = a - (1 << n) if a >> (n - 1) else a
                b = b - (1 << n) if b >> (n - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred])
        if n == 1:
            x, y = to_bool(a), to_bool(b)
            if pred == 'eq':
                return x == y
            if pred == 'ne':
                return z3.Xor(x, y)
            x, y = to_bv(x, 1), to_bv(y, 1)
        else:
            x, y = to_bv(a, n), to_bv(b, n)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y,
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return r

    def ptr_cmp(self, pred, a, b):
        if isinstance(a, PtrIte):
            return self.ite(a.c, self.ptr_cmp(pred, a.a, b), self.ptr_cmp(pred, a.b, b), ('i', 1))
        if isinstance(b, PtrIte):
            return self.ite(b.c, self.ptr_cmp(pred, a, b.a), self.ptr_cmp(pred, a, b.b), ('i', 1))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if pred in ('eq', 'ne'):
                e = same(a, b)
                return int(e == (pred == 'eq'))
            raise Unsupported('function pointer comparison')
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.icmp(pred, ('i', 64), self.ptr_int(a), self.ptr_int(b))
        if a.obj == b.obj:
            return self.icmp(pred, ('i', 64), a.off, b.off)
        if pred in ('eq', 'ne'):
            return int(pred == 'ne')
        return self.icmp(pred, ('i', 64), self.cast('ptrtoint', PTR, a, ('i', 64)),
                         self.cast('ptrtoint', PTR, b, ('i', 64)))

    def cast(self, op, ft, v, tt):
        if ft[0] == 'vec' and tt[0] == 'vec' and op in ('zext', 'sext', 'trunc'):
            return [self.cast(op, ft[2], x, tt[2]) for x in v]
        if op == 'bitcast' and (ft[0] == 'vec' or tt[0] == 'vec'):
            return self.vec_bitcast(ft, v, tt)
        if op in ('ptrtoint', 'ptrtoaddr'):
            if isinstance(v, PtrIte):
                return self.ite(v.c, self.cast(op, ft, v.a, tt), self.cast(op, ft, v.b, tt), tt)
            if v is UNDEF:
                return UNDEF
            if isinstance(v, FnPtr):
                return self.fn_addr(v.name)
            if isinstance(v, PInt):
                return self.cast('trunc', ('i', 64), v.v, tt) if tt[1] < 64 else v.v
            base = self.objs[v.obj].base
            r = self.binop('add', ('i', 64), base, v.off)
            return self.cast('trunc', ('i', 64), r, tt) if tt[1] < 64 else r
        if op == 'inttoptr':
            return self.int2ptr(v)
        if op == 'bitcast':
            return v
        if v is UNDEF:
            if op == 'trunc':
                return UNDEF
            v = fresh_bv(ft[1]) if ft[1] > 1 else to_bool(UNDEF)
        fn, tn = ft[1], tt[1]
        if isinstance(v, int):
            if op == 'trunc':
                return v & ((1 << tn) - 1)
            if op == 'zext':
                return v
            if v >> (fn - 1):
                return (v - (1 << fn)) & ((1 << tn) - 1)
            return v
        if op == 'zext':
            if fn == 1:
                return z3.If(to_bool(v), BV(1, tn), BV(0, tn))
            return z3.ZeroExt(tn - fn, v)
        if op == 'sext':
            if fn == 1:
                return z3.If(to_bool(v), BV(-1, tn), BV(0, tn))
            return z3.SignExt(tn - fn, v)
        if op == 'trunc':
            if tn == 1:
                return z3.Extract(0, 0, v) == 1
            return z3.Extract(tn - 1, 0, v)
        raise Unsupported(op)

    def vec_bitcast(self, ft, v, tt):
        def tobits(t, v):
            if t[0] == 'i':
                return to_bv(v, t[1])
            parts = [to_bv(x, t[2][1]) if t[2][1] > 1 else to_bv(to_bool(x), 1) for x in
                     (v if isinstance(v, list) else [UNDEF] * t[1])]
            return parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        b = tobits(ft, v)
        if tt[0] == 'i':
            return b if tt[1] > 1 else b == 1
        w = tt[2][1]
        out = [z3.Extract(w * i + w - 1, w * i, b) for i in range(tt[1])]
        return [x == 1 for x in out] if w == 1 else out

    def gep(self, t, base, idx):
        if isinstance(base, PtrIte):
            return PtrIte(base.c, self.gep(t, base.a, idx), self.gep(t, base.b, idx))
        if base is UNDEF:
            return UNDEF
        if isinstance(base, PInt):
            q = self.gep(t, Ptr(0, 0), idx)
            return PInt(base.v + to_bv(q.off, 64)) if q is not UNDEF else UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        cur = t
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                es, _ = size_align(cur)
            elif cur[0] == 'struct':
                off = self.binop('add', ('i', 64), off, struct_offsets(cur)[iv])
                cur = cur[2][iv]
                continue
            elif cur[0] in ('arr', 'vec'):
                cur = cur[2]
                es, _ = size_align(cur)
            else:
                raise Unsupported('gep')
            if it[1] < 64:
                iv = self.cast('sext', it, iv, ('i', 64))
            if iv is UNDEF:
                return UNDEF
            off = self.binop('add', ('i', 64), off, self.binop('mul', ('i', 64), iv, es))
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ execution
    def run(self, name, args, mem):
        """execute function; returns (State or None, retval)"""
        f = self.m.func(name)
        if f is None:
            raise Unsupported('no function ' + name)
        st = State([], mem, [], None)
        return self.call_func(f, args, st, 0)

    def call_func(self, f, args, st, depth):
        if depth > 60:
            raise Unsupported('call depth')
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        st0 = State(st.pc, st.mem, st.log, env)
        pend = {f.entry: st0}     # block -> State (phis already resolved)
        visits = {}
        checked = {}
        headers = f.headers
        ret = None
        cnt = 0
        while pend:
            b = min(pend, key=f.rpo.__getitem__)
            s = pend.pop(b)
            nv = visits[b] = visits.get(b, 0) + 1
            if nv > 1:
                if nv > MAX_UNROLL:
                    raise Unsupported('loop bound exceeded in ' + f.name)
                if b in headers:
                    pc = s.pc
                    last = checked.get(b)
                    if last is None or len(last) != len(pc) or not all(
                            x is y or x.eq(y) for x, y in zip(last, pc)):
                        if pc and not self.feasible(pc):
                            continue
                        checked[b] = pc
            outs, n = self.exec_block(f, b, s, depth)
            cnt += n
            for kind, tgt, s2, val in outs:
                if kind == 'ret':
                    if ret is None:
                        ret = (s2, val)
                    else:
                        ret = self.merge_ret(ret, (s2, val), f.ret)
                else:
                    if tgt in pend:
                        pend[tgt] = self.merge(pend[tgt], s2)
                    else:
                        pend[tgt] = s2
        self.encoded[f.name] = self.encoded.get(f.name, 0) + cnt
        if ret is None:
            return None, None
        s, v = ret
        s.env = None
        return s, v

    def merge_pc(self, a, b):
        i = 0
        n = min(len(a), len(b))
        while i < n and (a[i] is b[i] or a[i].eq(b[i])):
            i += 1
        sa, sb = a[i:], b[i:]
        guard = conj(sa)
        if not sa or not sb:
            # one implies the other (should not happen for disjoint paths)
            return guard, list(a[:i])
        if len(sa) == 1 and len(sb) == 1 and neg(sa[0]).eq(sb[0]):
            return guard, list(a[:i])
        if len(sa) >= 1 and len(sb) >= 1 and neg(sa[0]).eq(sb[0]):
            # split on sa[0]
            rest = []
            if len(sa) > 1:
                rest.append(z3.Or(neg(sa[0]), conj(sa[1:])))
            if len(sb) > 1:
                rest.append(z3.Or(neg(sb[0]), conj(sb[1:])))
            return sa[0], list(a[:i]) + rest
        return guard, list(a[:i]) + [z3.Or(guard, conj(sb))]

    def merge_mem(self, g, ma, mb):
        mem = dict(mb)
        for o in set(ma) | set(mb):
            ca, cb = ma.get(o), mb.get(o)
            if ca is None:
                ca = self.base_mem.get(o)
            if cb is None:
                cb = self.base_mem.get(o)
            if ca is cb:
                mem[o] = ca
                continue
            if ca is None or cb is None:      # object allocated on one path only
                mem[o] = ca if cb is None else cb
                continue
            cache = {}
            mem[o] = [x if x is y else self.merge_cell(g, x, y, cache) for x, y in zip(ca, cb)]
        return mem

    def merge_log(self, g, la, lb):
        if la is lb or la == lb:
            return la
        if len(la) == len(lb) and all(x is y for x, y in zip(la, lb)):
            return la
        n = 0
        while n < len(la) and n < len(lb) and la[n] is lb[n]:
            n += 1
        return la[:n] + [('split', g, la[n:], lb[n:])]

    def merge(self, a, b):
        g, pc = self.merge_pc(a.pc, b.pc)
        mem = self.merge_mem(g, a.mem, b.mem)
        env = {}
        ea, eb = a.env, b.env
        for k, va in ea.items():
            if k in eb:
                vb = eb[k]
                if va is vb:
                    env[k] = va
                else:
                    v = self.merge_untyped(g, va, vb)
                    if v is not None:
                        env[k] = v
        return State(pc, mem, self.merge_log(g, a.log, b.log), env)

    def merge_ret(self, ra, rb, t):
        a, va = ra
        b, vb = rb
        g, pc = self.merge_pc(a.pc, b.pc)
        mem = self.merge_mem(g, a.mem, b.mem)
        v = None if t == VOID else self.ite(g, va, vb, t)
        return State(pc, mem, self.merge_log(g, a.log, b.log), None), v

    def ev(self, env, t, o):
        k = o[0]
        if k == 'r':
            v = env[o[1]]
            if isinstance(v, tuple) and v and v[0] == 'int':
                v = self.ite(v[1], self.lazy(v[2], t), self.lazy(v[3], t), t)
                env[o[1]] = v
            return v
        if k == 'c':
            return o[1]
        return self.const(t, o)

    def lazy(self, v, t):
        if isinstance(v, tuple) and v and v[0] == 'int':
            return self.ite(v[1], self.lazy(v[2], t), self.lazy(v[3], t), t)
        return v

    def edge(self, f, src, dst, s, env):
        """resolve the phis of dst for the edge src->dst"""
        ne = env
        ph = []
        for ins in f.blocks[dst]:
            if ins[0] != 'phi':
                break
            v = ins[3].get(src)
            if v is None:
                raise Unsupported('phi edge')
            ph.append((ins[1], self.ev(env, ins[2], v)))
        ne = dict(env)
        for n, v in ph:
            ne[n] = v
        s.env = ne
        return s

    def exec_block(self, f, b, s, depth):
        env = s.env
        n = 0
        for ins in f.blocks[b]:
            op = ins[0]
            if op == 'phi':
                continue
            n += 1
            if op == 'bin':
                t = ins[3]
                env[ins[1]] = self.binop(ins[2], t, self.ev(env, t, ins[4]), self.ev(env, t, ins[5]))
            elif op == 'icmp':
                t = ins[3]
                env[ins[1]] = self.icmp(ins[2], t, self.ev(env, t, ins[4]), self.ev(env, t, ins[5]))
            elif op == 'cast':
                env[ins[1]] = self.cast(ins[2], ins[3], self.ev(env, ins[3], ins[4]), ins[5])
            elif op == 'load':
                env[ins[1]] = self.load(s, ins[2], self.ev(env, PTR, ins[3]))
            elif op == 'store':
                self.store(s, ins[1], self.ev(env, ins[1], ins[2]), self.ev(env, PTR, ins[3]))
            elif op == 'gep':
                env[ins[1]] = self.gep(ins[2], self.ev(env, PTR, ins[3]),
                                       [(it, self.ev(env, it, iv)) for it, iv in ins[4]])
            elif op == 'select':
                c = self.ev(env, ins[6], ins[3])
                t = ins[2]
                x = self.ev(env, t, ins[4])
                y = self.ev(env, t, ins[5])
                if isinstance(c, list):
                    env[ins[1]] = [self.ite(to_bool(cc), xx, yy, t[2]) for cc, xx, yy in zip(c, x, y)]
                elif isinstance(c, int):
                    env[ins[1]] = x if c else y
                else:
                    env[ins[1]] = self.ite(to_bool(c), x, y, t)
            elif op == 'alloca':
                sz, _ = size_align(ins[2])
                o = self.new_obj(f.name + ins[1], sz)
                s.mem = dict(s.mem)
                s.mem[o] = [UNDEF] * sz
                env[ins[1]] = Ptr(o, 0)
            elif op == 'extractvalue':
                v = self.ev(env, ins[2], ins[3])
                for i in ins[4]:
                    v = UNDEF if v is UNDEF else v[i]
                env[ins[1]] = v
            elif op == 'insertvalue':
                v = self.ev(env, ins[2], ins[3])
                e = self.ev(env, ins[4], ins[5])
                env[ins[1]] = self.insert(ins[2], v, e, ins[6])
            elif op == 'freeze':
                v = self.ev(env, ins[2], ins[3])
                if v is UNDEF and ins[2][0] == 'i':
                    v = fresh_bv(ins[2][1]) if ins[2][1] > 1 else to_bool(UNDEF)
                env[ins[1]] = v
            elif op == 'call':
                r = self.call(f, ins, s, env, depth)
                if isinstance(r, str) and r == 'stop':
                    return [], n
                s.env = env
            elif op == 'br':
                return [('go', ins[1], self.edge(f, b, ins[1], s, env), None)], n
            elif op == 'cbr':
                c = self.ev(env, ('i', 1), ins[1])
                if isinstance(c, int):
                    tgt = ins[2] if c & 1 else ins[3]
                    return [('go', tgt, self.edge(f, b, tgt, s, env), None)], n
                if ins[2] == ins[3]:
                    return [('go', ins[2], self.edge(f, b, ins[2], s, env), None)], n
                c = self.simp(to_bool(c))
                if z3.is_true(c) or z3.is_false(c):
                    tgt = ins[2] if z3.is_true(c) else ins[3]
                    return [('go', tgt, self.edge(f, b, tgt, s, env), None)], n
                s1 = State(s.pc + [c], dict(s.mem), s.log, None)
                s2 = State(s.pc + [neg(c)], dict(s.mem), s.log, None)
                return [('go', ins[2], self.edge(f, b, ins[2], s1, env), None),
                        ('go', ins[3], self.edge(f, b, ins[3], s2, env), None)], n
            elif op == 'switch':
                v = self.ev(env, ins[1], ins[2])
                if isinstance(v, int):
                    tgt = ins[3]
                    for cv, l in ins[4]:
                        if cv == v:
                            tgt = l
                            break
                    return [('go', tgt, self.edge(f, b, tgt, s, env), None)], n
                v = to_bv(v, ins[1][1])
                outs = {}
                eqs = []
                for cv, l in ins[4]:
                    c = self.simp(v == BV(cv, ins[1][1]))
                    eqs.append(c)
                    outs.setdefault(l, []).append(c)
                outs.setdefault(ins[3], []).append(conj([neg(c) for c in eqs]) if eqs else z3.BoolVal(True))
                res = []
                for l, cs in outs.items():
                    c = cs[0] if len(cs) == 1 else z3.Or(*cs)
                    s1 = State(s.pc + [c], dict(s.mem), s.log, None)
                    res.append(('go', l, self.edge(f, b, l, s1, env), None))
                return res, n
            elif op == 'ret':
                v = None if ins[1] is None else self.ev(env, ins[1], ins[2])
                return [('ret', None, s, v)], n
            elif op == 'unreachable':
                self.event('unreachable', f.name, s)
                return [], n
            elif op == 'extractelement':
                v = self.ev(env, ins[2], ins[3])
                i = self.ev(env, ('i', 64), ins[4])
                if not isinstance(i, int):
                    raise Unsupported('extractelement')
                env[ins[1]] = v[i] if isinstance(v, list) else UNDEF
            elif op == 'insertelement':
                v = self.ev(env, ins[2], ins[3])
                e = self.ev(env, ins[2][2], ins[4])
                i = self.ev(env, ('i', 64), ins[5])
                if not isinstance(i, int):
                    raise Unsupported('insertelement')
                v = list(v) if isinstance(v, list) else [UNDEF] * ins[2][1]
                v[i] = e
                env[ins[1]] = v
            elif op == 'shufflevector':
                nn = ins[2][1]
                a = self.ev(env, ins[2], ins[3])
                c = self.ev(env, ins[2], ins[4])
                a = a if isinstance(a, list) else [UNDEF] * nn
                c = c if isinstance(c, list) else [UNDEF] * nn
                mk = self.ev(env, ins[5], ins[6])
                env[ins[1]] = [UNDEF if k is UNDEF else (a + c)[k] for k in mk]
            else:
                raise Unsupported(op)
        raise Unsupported('block without terminator')

    def simp(self, c):
        return z3.simplify(c)

    def csimp(self, a):
        """cached simplification: repeated masking/shifting of one large value"""
        r = self.scache.get(a.get_id())
        if r is None:
            v = z3.simplify(a)
            if z3.is_bv_value(v):
                v = v.as_long()
            r = self.scache[a.get_id()] = (a, v)     # keep a alive: ids are reused
            if isinstance(v, z3.ExprRef):
                self.scache[v.get_id()] = (v, v)
        return r[1]

    def insert(self, t, v, e, idx):
        if v is UNDEF:
            v = [UNDEF] * (len(t[2]) if t[0] == 'struct' else t[1])
        v = list(v)
        i = idx[0]
        if len(idx) == 1:
            v[i] = e
        else:
            v[i] = self.insert(t[2][i] if t[0] == 'struct' else t[2], v[i], e, idx[1:])
        return v

    # ---------------------------------------------------------------- calls
    def call(self, f, ins, s, env, depth):
        dst, rt, callee, args = ins[1], ins[2], ins[3], ins[4]
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.ev(env, PTR, callee)
            if not isinstance(p, FnPtr):
                raise Unsupported('indirect call')
            name = p.name
        if name.startswith('@llvm.'):
            r = self.intrinsic(name, rt, args, s, env)
            if isinstance(r, str) and r == 'stop':
                return r
            if dst is not None:
                env[dst] = r
            return None
        vals = [None if t[0] == 'metadata' else self.ev(env, t, a) for t, a in args]
        g = self.m.func(name)
        if g is not None:
            st, v = self.call_func(g, vals, s, depth + 1)
            if st is None:
                return 'stop'
            s.pc, s.mem, s.log = st.pc, st.mem, st.log
            if dst is not None:
                env[dst] = v
            return None
        for key, fn in self.stubs.items():
            if key in name:
                self.stub_used.add(key)
                r = fn(self, name, rt, vals, s)
                if isinstance(r, str) and r == 'stop':
                    return r
                if dst is not None:
                    env[dst] = r
                return None
        r = self.builtin(name, rt, vals, s)
        if r is NotImplemented:
            nr = any('noreturn' in self.m.attrs.get(a, '') for a in ins[5]) or self.m.is_noreturn_decl(name)
            if nr or 'panic' in name or 'slice_index_fail' in name or 'unwrap_failed' in name:
                self.event('panic', name, s)
                return 'stop'
            raise Unsupported('external call ' + name)
        if isinstance(r, str) and r == 'stop':
            return r
        if dst is not None:
            env[dst] = r
        return None

    def builtin(self, name, rt, vals, s):
        if '__rust_no_alloc_shim_is_unstable' in name:
            return 0
        if '__rust_alloc_zeroed' in name or '__rust_alloc' in name:
            n = vals[0]
            if not isinstance(n, int):
                raise Unsupported('allocation of symbolic size')
            o = self.new_obj('heap', n)
            s.mem = dict(s.mem)
            s.mem[o] = [0 if 'zeroed' in name else UNDEF] * n
            return Ptr(o, 0)
        if '__rust_dealloc' in name:
            return None
        if name in ('@memcpy', '@memmove'):
            self.memcpy(s, vals[0], vals[1], vals[2])
            return vals[0]
        if name in ('@memcmp', '@bcmp'):
            n = vals[2]
            if not isinstance(n, int):
                raise Unsupported('memcmp of symbolic size')
            res = 0
            for i in range(n - 1, -1, -1):
                a = self.load(s, ('i', 8), self.gep(('i', 8), vals[0], [(('i', 64), i)]))
                b = self.load(s, ('i', 8), self.gep(('i', 8), vals[1], [(('i', 64), i)]))
                eq = self.icmp('eq', ('i', 8), a, b)
                lt = self.icmp('ult', ('i', 8), a, b)
                d = self.ite(lt, (1 << 32) - 1, 1, ('i', 32)) if not isinstance(lt, int) else \
                    ((1 << 32) - 1 if lt else 1)
                res = (res if eq else d) if isinstance(eq, int) else self.ite(eq, res, d, ('i', 32))
            return res
        return NotImplemented

    def memcpy(self, s, d, a, n, fill=None):
        if not isinstance(n, int):
            n = z3.simplify(to_bv(n, 64))
            if z3.is_bv_value(n):
                n = n.as_long()
        if isinstance(n, int):
            if n == 0:
                return
            t = ('arr', n, ('i', 8))
            if fill is not None:
                for c, q in self.resolve(s, d):
                    self.store1(s, t, [fill] * n, q, c)
                return
            ra, rd = self.resolve(s, a), self.resolve(s, d)
            if len(ra) == 1 and len(rd) == 1 and isinstance(ra[0][1].off, int) and isinstance(rd[0][1].off, int):
                q, p = ra[0][1], rd[0][1]
                if q.obj and p.obj and q.off + n <= self.objs[q.obj].size and p.off + n <= self.objs[p.obj].size \
                        and not self.objs[p.obj].const:
                    src = self.cells_of(s, q.obj)[q.off:q.off + n]
                    cells = self.own(s, p.obj)
                    cells[p.off:p.off + n] = src
                    return
            v = self.load(s, t, a)
            self.store(s, t, v, d)
            return
        # symbolic length: bounded by the smaller object
        cap = None
        for p in ([d] if fill is not None else [d, a]):
            for _, q in self.resolve(s, p):
                if q.obj == 0:
                    continue
                lim = self.objs[q.obj].size - (q.off if isinstance(q.off, int) else 0)
                cap = lim if cap is None else min(cap, lim)
        if cap is None:
            cap = 0
        self.event('ub', 'memcpy out of bounds', s, z3.UGT(n, BV(cap, 64)))
        vals = []
        for i in range(cap):
            if fill is not None:
                vals.append(fill)
            else:
                cnd = z3.UGT(n, BV(i, 64))
                s2 = State(s.pc + [cnd], s.mem, s.log, None)
                vals.append(self.load(s2, ('i', 8), self.gep(('i', 8), a, [(('i', 64), i)])))
        for i in range(cap):
            cnd = z3.UGT(n, BV(i, 64))
            for c, q in self.resolve(s, self.gep(('i', 8), d, [(('i', 64), i)])):
                self.store1(s, ('i', 8), vals[i], q, cnd if c is None else z3.And(c, cnd))

    def intrinsic(self, name, rt, args, s, env):
        nm = name[6:]
        if nm.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'donothing', 'prefetch')):
            return None
        vals = [None if (t[0] == 'metadata' or a is None) else self.ev(env, t, a) for t, a in args]
        if nm.startswith('assume'):
            c = vals[0]
            if isinstance(c, int) or c is UNDEF:
                return None
            c = self.simp(to_bool(c))
            if not z3.is_true(c):
                self.event('ub', 'llvm.assume violated', s, neg(c))
                s.pc = s.pc + [c]
            return None
        if nm.startswith(('memcpy', 'memmove')):
            self.memcpy(s, vals[0], vals[1], vals[2])
            return None
        if nm.startswith('memset'):
            self.memcpy(s, vals[0], None, vals[2], fill=vals[1])
            return None
        if nm.startswith('trap') or nm.startswith('ubsantrap'):
            self.event('panic', name, s)
            return 'stop'
        base = nm.split('.')[0]
        t = args[0][0] if args else None
        if base == 'expect':
            return vals[0]
        if base in ('umin', 'umax', 'smin', 'smax'):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
            c = self.icmp(pred, t, vals[0], vals[1])
            return self.ite(c, vals[0], vals[1], t) if not isinstance(c, int) else (vals[0] if c else vals[1])
        if nm.startswith(('uadd.sat', 'usub.sat')):
            n = t[1]
            a, b = to_bv(vals[0], n), to_bv(vals[1], n)
            if nm.startswith('usub'):
                return z3.If(z3.ULT(a, b), BV(0, n), a - b)
            return z3.If(z3.ULT(a + b, a), BV(-1, n), a + b)
        if nm.startswith(('uadd.with', 'usub.with', 'umul.with', 'sadd.with', 'ssub.with', 'smul.with')):
            n = t[1]
            if isinstance(vals[0], int) and isinstance(vals[1], int):
                a, b = vals
                if nm[0] == 's':
                    a = a - (1 << n) if a >> (n - 1) else a
                    b = b - (1 << n) if b >> (n - 1) else b
                r = a + b if 'add' in nm else a - b if 'sub' in nm else a * b
                lo, hi = (0, (1 << n) - 1) if nm[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                return [r & ((1 << n) - 1), int(not lo <= r <= hi)]
            a, b = to_bv(vals[0], n), to_bv(vals[1], n)
            ext = z3.ZeroExt if nm[0] == 'u' else z3.SignExt
            w = n + 1 if 'mul' not in nm else 2 * n
            A, B = ext(w - n, a), ext(w - n, b)
            R = A + B if 'add' in nm else A - B if 'sub' in nm else A * B
            r = z3.Extract(n - 1, 0, R)
            return [r, ext(w - n, r) != R]
        if base == 'bswap':
            n = t[1]
            v = vals[0]
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(n // 8, 'little'), 'big')
            v = to_bv(v, n)
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)])
        if base == 'bitreverse':
            n = t[1]
            v = to_bv(vals[0], n)
            return z3.Concat(*[z3.Extract(i, i, v) for i in range(n)])
        if base in ('fshl', 'fshr'):
            n = t[1]
            a, b, c = to_bv(vals[0], n), to_bv(vals[1], n), to_bv(vals[2], n)
            k = z3.ZeroExt(n, z3.URem(c, BV(n, n)))
            if isinstance(vals[2], int):
                k = BV(vals[2] % n, 2 * n)
            ab = z3.Concat(a, b)
            if base == 'fshl':
                return z3.Extract(2 * n - 1, n, ab << k)
            return z3.Extract(n - 1, 0, z3.LShR(ab, k))
        if base in ('ctpop', 'ctlz', 'cttz'):
            n = t[1]
            v = vals[0]
            if isinstance(v, int):
                if base == 'ctpop':
                    return bin(v).count('1')
                if base == 'ctlz':
                    return n - v.bit_length()
                return n if v == 0 else (v & -v).bit_length() - 1
            v = to_bv(v, n)
            bits = [z3.Extract(i, i, v) for i in range(n)]
            if base == 'ctpop':
                r = BV(0, n)
                for x in bits:
                    r = r + (z3.ZeroExt(n - 1, x) if n > 1 else x)
                return r
            r = BV(n, n)
            it = range(n) if base == 'ctlz' else range(n - 1, -1, -1)
            for i in it:
                r = z3.If(bits[i] == 1, BV(n - 1 - i if base == 'ctlz' else i, n), r)
            return r
        if base == 'abs':
            n = t[1]
            v = to_bv(vals[0], n)
            return z3.If(v < 0, -v, v)
        if base in ('scmp', 'ucmp'):
            n = t[1]
            w = rt[1]
            p = base[0]
            lt = to_bool(self.icmp(p + 'lt', t, vals[0], vals[1]))
            gt = to_bool(self.icmp(p + 'gt', t, vals[0], vals[1]))
            return z3.If(lt, BV(-1, w), z3.If(gt, BV(1, w), BV(0, w)))
        if base == 'is' and nm.startswith('is.constant'):
            return 0
        raise Unsupported('intrinsic ' + name)
