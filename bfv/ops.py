"""Catalogue of generated operations: each entry is a harness whose assertions
are the documented meaning of the operation, over all states and arguments."""
from .harness import H
from .model import *

B1 = lambda o: ex(o, 0, 1) == 1          # a flag byte


def is_lossy(d, f):
    t = f.ty
    if t.kind != 'custom' or not t.lossy:
        return False
    return True


def eqst(d, got, exp, label, extra_free=0):
    """state equality.  A field of a custom type whose own conversion is not the
    identity on all bit patterns may be stored raw or normalised by that
    conversion; both are accepted, every other bit is exact."""
    m = ones(d.N) & ~extra_free
    lossy = [f for f in d.fields if is_lossy(d, f)]
    out = []
    for f in lossy:
        m &= ~(ones(f.bits) << f.off)
    if m == ones(d.N):
        out.append((label, got == exp))
    elif m:
        M = BV(m, d.N)
        out.append((label, (got & M) == (exp & M)))
    for f in lossy:
        g = d.get_bits(got, f)
        e = d.get_bits(exp, f)
        out.append((label + ' (field %s)' % f.name,
                    z3.Or(g == e, g == fit(f.ty.into(f.ty.from_(e)), f.bits))))
    return out


def zero_ign(d, O, pre='oig_'):
    out = []
    for f in d.ignored:
        out.append(('ignored field %s starts at its Default' % f.name, O[pre + f.ident] == 0))
    return out


def keep_ign(d, I, O, pre='oig_'):
    out = []
    for f in d.ignored:
        exp = I['ig_' + f.ident]
        if f.ty.kind == 'bool':
            exp = exp & 1
        out.append(('ignored field %s is kept' % f.name, O[pre + f.ident] == exp))
    return out


def mkH(d, op, *tags):
    h = H(d, op)
    h.tags = set(tags)
    return h


def mutator(d, op, call, oracle, tags, args=(), result=None, x_mut=True):
    """&mut self operation.  args: (name, nbytes, rust type) ; oracle(S, I) -> post"""
    h = mkH(d, op, 'mut', *tags)
    h.state()
    for a in args:
        if isinstance(a, tuple):
            h.inp(*a)
        else:
            h.val('v', a)
    if result:
        h.out_result('r', call, 0, None)
    else:
        h.line(call + ';')
    h.out_state()
    h.out_ign()

    def checks(I, O):
        S = I['st']
        out = []
        if result:
            ok = result(S, I)
            okf = B1(O['r_ok'])
            if isinstance(ok, tuple):        # (must be ok, must be err)
                must_ok, must_err = ok
                out.append(('Ok when the arguments are valid', z3.Implies(must_ok, okf)))
                out.append(('Err when they are not', z3.Implies(must_err, z3.Not(okf))))
            else:
                out.append(('Ok exactly when valid', okf == ok))
            exp = oracle(S, I)
            got = O['post']
            out += [(l, z3.Implies(okf, c)) for l, c in eqst(d, got, exp, 'state after Ok')]
            out.append(('state unchanged after Err', z3.Implies(z3.Not(okf), got == S)))
        else:
            out += eqst(d, O['post'], oracle(S, I), 'state')
        out += keep_ign(d, I, O)
        return out
    h.checks = checks
    h.oracle = oracle
    return h


def W(d):
    """writable bits"""
    return d.mask(lambda f: f.setter)


def HID(d):
    """hidden bits"""
    return d.mask(lambda f: f.hidden)


# ------------------------------------------------------------------- fields
def field_ops(d):
    L = []
    for f in d.fields:
        n = f.ident
        if f.getter:
            h = mkH(d, 'get %s' % n, 'get', 'read', 'field', 'ty:' + f.ty.kind)
            h.state(mut=False)
            h.out('g', f.ty.wire, f.ty.dump('x.%s()' % f.name))
            h.checks = (lambda f: lambda I, O: [('value read is the field', O['g'] == d.get(I['st'], f))])(f)
            h.field = f
            L.append(h)
        if f.setter:
            h = mutator(d, 'set_%s' % n, 'x.set_%s(v)' % n, (lambda f: lambda S, I: d.set(S, f, I['v_w']))(f),
                        ('set', 'field', 'ty:' + f.ty.kind), [f.ty])
            h.field = f
            L.append(h)
            if f.getter:
                h = mkH(d, 'set/get %s' % n, 'setget', 'field', 'ty:' + f.ty.kind)
                h.state()
                h.val('v', f.ty)
                h.line('x.set_%s(v);' % n)
                h.out('g', f.ty.wire, f.ty.dump('x.%s()' % f.name))
                others = [g for g in d.fields if g.getter and g is not f]
                for g in others:
                    h.out('o_' + g.ident, g.ty.wire, g.ty.dump('x.%s()' % g.name))

                def ck(I, O, f=f, others=others):
                    v = f.ty.into(I['v_w'])
                    w = sfit(v, f.bits) if f.ty.signed else fit(v, f.bits)
                    out = [('reads back what was set', O['g'] == f.ty.from_(w))]
                    if f.ty.kind == 'int':
                        out.append(('a value that fits reads back unchanged',
                                    z3.Implies(f.ty.fits(I['v_w'], f.bits), O['g'] == I['v_w'])))
                    for g in others:
                        out.append(('field %s keeps its value' % g.ident, O['o_' + g.ident] == d.get(I['st'], g)))
                    return out
                h.checks = ck
                h.field = f
                L.append(h)
            h = mutator(d, 'checked_set_%s' % n, 'x.checked_set_%s(v)' % n,
                        (lambda f: lambda S, I: d.set(S, f, I['v_w']))(f),
                        ('checked_set', 'field', 'ty:' + f.ty.kind), [f.ty],
                        result=(lambda f: lambda S, I: f.ty.fits(I['v_w'], f.bits))(f))
            h.field = f
            L.append(h)
    return L


def const_ops(d):
    """A_BITS / A_OFFSET and the layout they promise"""
    L = []
    for f in d.fields:
        if f.reserved or f.acc == 'na':
            continue
        C = f.ident.upper()
        h = mkH(d, 'layout %s' % f.ident, 'layout')
        h.state()
        h.val('v', f.ty)
        h.out('bits', 4, 'X::%s_BITS' % C)
        h.out('off', 4, 'X::%s_OFFSET' % C)
        if f.getter:
            h.out('g', f.ty.wire, f.ty.dump('x.%s()' % f.name))
        if f.setter:
            h.line('x.set_%s(v);' % f.ident)
            h.out_state('post')

        def ck(I, O, f=f):
            S = I['st']
            out = [('%s_BITS' % f.ident.upper(), O['bits'] == f.bits),
                   ('%s_OFFSET' % f.ident.upper(), O['off'] == f.off)]
            if f.getter:
                out.append(('reading uses exactly the bits the constants name', O['g'] == d.get(S, f)))
            if f.setter:
                out.append(('writing changes only the bits the constants name',
                            (O['post'] ^ S) & BV(ones(d.N) ^ (ones(f.bits) << f.off), d.N) == 0))
                out.append(('written bits land at the constant offset', O['post'] == d.set(S, f, I['v_w'])))
            return out
        h.checks = ck
        h.field = f
        L.append(h)
    return L


# -------------------------------------------------------------- constructors
def ctor(d, op, expr, oracle, tags, args=(), ign=True):
    h = mkH(d, op, 'ctor', *tags)
    for a in args:
        h.inp(*a)
    h.line('let x = %s;' % expr)
    h.out_state()
    if ign:
        h.out_ign()

    def checks(I, O):
        return eqst(d, O['post'], oracle(I), 'state') + (zero_ign(d, O) if ign else [])
    h.checks = checks
    return h


def new_ops(d):
    L = []
    if 'new' not in d.off:
        L.append(ctor(d, 'new', 'X::new()', lambda I: d.new(), ('new',)))
        L.append(ctor(d, 'new_without_defaults', 'X::new_without_defaults()', lambda I: d.new_without_defaults(),
                      ('new',)))
    if 'default' not in d.off:
        L.append(ctor(d, 'Default', '<X as Default>::default()', lambda I: d.new(), ('new', 'default')))
    return L


def from_ops(d):
    L = []
    b = d.bob
    A = [('v', d.nbytes, d.bty)]
    if 'from_into' not in d.off:
        for e, nm in ((d.from_e, 'from_%s' % b), ('little', 'from_le_%s' % b), ('big', 'from_be_%s' % b)):
            L.append(ctor(d, nm, 'X::%s(v)' % nm, (lambda e: lambda I: d.from_data(I['v'], e))(e), ('from',), A))
            L.append(ctor(d, nm + '_with_defaults', 'X::%s_with_defaults(v)' % nm,
                          (lambda e: lambda I: d.defaults(d.from_data(I['v'], e)))(e), ('from', 'from_def'), A))
    if 'from_traits' not in d.off:
        L.append(ctor(d, 'From<backing>', '<X as From<%s>>::from(v)' % d.bty, lambda I: d.from_data(I['v'], d.from_e),
                      ('from', 'trait'), A))
    return L


def into_ops(d):
    L = []
    b = d.bob

    def mk(nm, expr, e, *tags):
        h = mkH(d, nm, 'into', *tags)
        h.state(mut=False)
        h.out('r', d.nbytes, expr)
        h.checks = lambda I, O: [('exported value', O['r'] == d.into_data(I['st'], e))]
        L.append(h)
    if 'from_into' not in d.off:
        for e, nm in ((d.into_e, 'into_%s' % b), ('little', 'into_le_%s' % b), ('big', 'into_be_%s' % b)):
            mk(nm, 'x.%s()' % nm, e)
    if 'from_traits' not in d.off:
        mk('Into<backing>', '<%s as From<X>>::from(x)' % d.bty, d.into_e, 'trait')
    return L


def roundtrip_ops(d):
    """from . into = identity on every accepted state, through the public API only"""
    L = []
    b = d.bob
    if 'from_into' in d.off:
        return L
    pairs = [('from_le_' + b, 'into_le_' + b, None), ('from_be_' + b, 'into_be_' + b, None),
             ('from_le_' + b, 'into_be_' + b, 'rev'), ('from_be_' + b, 'into_le_' + b, 'rev'),
             ('from_' + b, 'into_' + b, None if d.from_e == d.into_e else 'rev')]
    lossy = any(is_lossy(d, f) for f in d.fields)
    if lossy:
        return L
    for fr, to, k in pairs:
        h = mkH(d, '%s/%s' % (fr, to), 'roundtrip')
        h.inp('v', d.nbytes, d.bty)
        h.line('let x = X::%s(v);' % fr)
        h.out('r', d.nbytes, 'x.%s()' % to)
        h.checks = (lambda k: lambda I, O: [
            ('round trip' if k is None else 'opposite endians reverse the bytes',
             O['r'] == (I['v'] if k is None else bswap(I['v'])))])(k)
        L.append(h)
    return L


# -------------------------------------------------------------------- slices
def slice_ops(d, extra=3):
    L = []
    if d.is_int or 'from_into' in d.off:
        return L
    N = d.nbytes
    cap = N + extra       # bytes that really exist behind the slice: nothing past the first N may be touched

    def data(I):
        """first min(len, N) bytes, rest zero, as the little-endian N-byte integer"""
        parts = []
        for i in range(N):
            byte = ex(I['buf'], 8 * i, 8)
            parts.append(z3.If(z3.ULT(BV(i, 64), I['len']), byte, BV(0, 8)))
        return z3.Concat(*reversed(parts)) if N > 1 else parts[0]

    for e, nm in ((d.from_e, 'from_slice'), ('little', 'from_le_slice'), ('big', 'from_be_slice')):
        for wd in (False, True):
            for chk in (False, True):
                fn = ('checked_' if chk else '') + nm + ('_with_defaults' if wd else '')
                h = mkH(d, fn, 'slice', 'from_slice')
                h.inp('buf', cap, '[u8; %d]' % cap)
                h.inp('len', 8, 'u64')
                h.pre = lambda I: z3.ULE(I['len'], 1 << 62)
                h.line('let s = core::slice::from_raw_parts(buf.as_ptr(), len as usize);')
                if chk:
                    h.out_result('r', 'X::%s(s)' % fn, N, lambda v: d.raw(v))
                else:
                    h.line('let x = X::%s(s);' % fn)
                    h.out('r', N, d.raw())

                def ck(I, O, e=e, wd=wd, chk=chk):
                    exp = d.from_data(data(I), e)
                    if wd:
                        exp = d.defaults(exp)
                    if chk:
                        full = z3.UGE(I['len'], N)
                        return [('Ok exactly when the slice is long enough', B1(O['r_ok']) == full)] + \
                            [(l, z3.Implies(full, c)) for l, c in eqst(d, O['r'], exp, 'state')]
                    return eqst(d, O['r'], exp, 'state')
                h.checks = ck
                L.append(h)
    for e, nm in ((d.into_e, 'into_slice'), ('little', 'into_le_slice'), ('big', 'into_be_slice')):
        for chk in (False, True):
            fn = ('checked_' if chk else '') + nm
            h = mkH(d, fn, 'slice', 'into_slice')
            h.state(mut=False)
            h.inp('buf', cap, '[u8; %d]' % cap)
            h.inp('len', 8, 'u64')
            h.pre = lambda I: z3.ULE(I['len'], 1 << 62)
            h.line('let mut buf = buf;')
            h.line('let s = core::slice::from_raw_parts_mut(buf.as_mut_ptr(), len as usize);')
            if chk:
                h.out_result('r', 'x.%s(s)' % fn, 0, None)
            else:
                h.line('x.%s(s);' % fn)
            h.out('obuf', cap, 'buf')

            def ck(I, O, e=e, chk=chk):
                D_ = d.into_data(I['st'], e)
                parts = []
                for i in range(cap):
                    old = ex(I['buf'], 8 * i, 8)
                    if i < N:
                        c = z3.ULT(BV(i, 64), I['len'])
                        if chk:
                            c = z3.UGE(I['len'], N)
                        parts.append(z3.If(c, ex(D_, 8 * i, 8), old))
                    else:
                        parts.append(old)
                exp = z3.Concat(*reversed(parts))
                out = []
                if chk:
                    full = z3.UGE(I['len'], N)
                    out.append(('Ok exactly when the slice is long enough', B1(O['r_ok']) == full))
                    # on Err nothing is promised about partial content except bytes outside the slice
                    out.append(('buffer after Ok', z3.Implies(full, O['obuf'] == exp)))
                    out.append(('buffer untouched after Err', z3.Implies(z3.Not(full), O['obuf'] == I['buf'])))
                else:
                    out.append(('buffer', O['obuf'] == exp))
                return out
            h.checks = ck
            L.append(h)
    return L


# ------------------------------------------------------------------- bit ops
def shl1(d, off):
    """1 << off as an N-bit mask, 0 when out of range; off: 32-bit"""
    w = max(d.N, 32)
    m = z3.If(z3.ULT(off, BV(d.N, 32)), BV(1, w) << fit(off, w), BV(0, w))
    return fit(m, d.N)


def bit_ops(d):
    L = []
    if 'setget' in d.off:
        return L
    A = [('off', 4, 'u32'), ('b', 1, 'u8')]

    def oracle(S, I):
        m = shl1(d, I['off']) & BV(W(d), d.N)
        return z3.If(ex(I['b'], 0, 1) == 1, S | m, S & ~m)
    L.append(mutator(d, 'set_bit', 'x.set_bit(off, b & 1 != 0)', oracle, ('bit', 'wprot'), A))
    L.append(mutator(d, 'checked_set_bit', 'x.checked_set_bit(off, b & 1 != 0)', oracle, ('bit', 'wprot'), A,
                     result=lambda S, I: (shl1(d, I['off']) & BV(W(d), d.N)) != 0))
    hid = HID(d)
    free = d.mask(lambda f: f.reserved and f.default is None)
    h = mkH(d, 'get_bit', 'bit', 'read')
    h.state(mut=False)
    h.inp('off', 4, 'u32')
    h.out('g', 1, 'x.get_bit(off) as u8')

    def ck(I, O):
        m = shl1(d, I['off'])
        out = [('bit value', z3.Implies((m & BV(free, d.N)) == 0,
                                        O['g'] == z3.If((I['st'] & m & BV(ones(d.N) & ~hid, d.N)) != 0,
                                                        BV(1, 8), BV(0, 8))))]
        if free:
            out.append(('reserved bit reads as itself or 0', z3.Or(O['g'] == 0, (I['st'] & m) != 0)))
        return out
    h.checks = ck
    L.append(h)
    h = mkH(d, 'checked_get_bit', 'bit', 'read')
    h.state(mut=False)
    h.inp('off', 4, 'u32')
    h.out_result('g', 'x.checked_get_bit(off)', 1, lambda v: '%s as u8' % v)

    def ck2(I, O):
        m = shl1(d, I['off'])
        ok = B1(O['g_ok'])
        readable = BV(ones(d.N) & ~hid, d.N)
        out = [('Ok exactly when in range and readable',
                z3.Implies((m & BV(free, d.N)) == 0, ok == ((m & readable) != 0))),
               ('bit value', z3.Implies(ok, O['g'] == z3.If((I['st'] & m) != 0, BV(1, 8), BV(0, 8))))]
        return out
    h.checks = ck2
    L.append(h)
    return L


def rng_mask(d, off, ln):
    """(in range, mask at offset, mask at 0) for a non-empty range"""
    o = z3.ZeroExt(32, off)
    l = z3.ZeroExt(32, ln)
    inr = z3.And(z3.ULE(o + l, BV(d.N, 64)), ln != 0)
    w = max(d.N + 1, 33)
    m0 = (BV(1, w) << fit(ln, w)) - 1
    m0 = fit(m0, d.N)
    mo = m0 << _sh(d, off)
    return inr, mo, m0


def _sh(d, off):
    """off as an N-bit shift amount; only meaningful when off < N"""
    if d.N >= 32:
        return fit(off, d.N)
    # saturate so that a large offset is not truncated into range
    return z3.If(z3.ULT(off, BV(d.N, 32)), fit(off, d.N), BV(d.N - 1, d.N))


def split_offsets(d, h, full_offsets):
    """array range operations: one case per concrete offset (length, value and
    state stay symbolic) plus one for every out-of-range offset"""
    offs = set(range(d.N))
    if d.N > full_offsets:
        if full_offsets == 0:
            offs = {0, d.N - 1, d.N // 2 + 3}
        else:
            offs = {0, 7, d.N - 1}
            if full_offsets > 64 or d.N <= 64:
                offs |= {1, 8, d.N - 8, d.N // 2 + 3}
        nf = 3 if full_offsets > 64 else 2
        step = max(1, len(d.fields) // nf)
        for f in d.fields[::step][:nf]:
            offs |= {f.off, f.off + f.bits - 1}
        if d.N > 200 and full_offsets <= 64:
            offs = {d.N // 2 + 5, d.N - 9}
    part = len(offs) < d.N
    h.split = ('off', sorted(offs))
    h.cost = len(offs) * d.N / 60.0
    if part:
        h.bound = 'offsets %s and every out-of-range offset' % sorted(offs)
        old = h.pre

        def pre(I):
            c = z3.Or(z3.UGE(I['off'], BV(d.N, 32)), *[I['off'] == v for v in sorted(offs)])
            return z3.And(old(I), c) if old else c
        h.pre = pre


def range_ops(d, strict_value=True, full_offsets=1 << 30):
    L = []
    if 'setget' in d.off:
        return L
    b = d.bob
    A = [('off', 4, 'u32'), ('ln', 4, 'u32'), ('val', d.nbytes, d.bty)]
    Wm = BV(W(d), d.N)
    hid = HID(d)
    free = d.mask(lambda f: f.reserved and f.default is None)

    def oracle(S, I):
        inr, mo, m0 = rng_mask(d, I['off'], I['ln'])
        m = mo & Wm
        return z3.If(inr, (S & ~m) | ((I['val'] << _sh(d, I['off'])) & m), S)

    def valid(S, I):
        inr, mo, m0 = rng_mask(d, I['off'], I['ln'])
        fits = (I['val'] & ~m0) == 0
        okp = (mo & ~Wm) == 0
        must_ok = z3.And(inr, okp, fits)
        must_err = z3.And(I['ln'] != 0, z3.Or(z3.Not(inr), z3.Not(okp), z3.Not(fits) if strict_value
                                              else z3.BoolVal(False)))
        # an empty range out of bounds
        return must_ok, must_err
    L.append(mutator(d, 'set_%s_range' % b, 'x.set_%s_range(off, ln, val)' % b, oracle, ('range', 'wprot'), A))
    L.append(mutator(d, 'checked_set_%s_range' % b, 'x.checked_set_%s_range(off, ln, val)' % b, oracle,
                     ('range', 'wprot'), A, result=valid))
    h = mkH(d, 'get_%s_range' % b, 'range', 'read')
    h.state(mut=False)
    h.inp('off', 4, 'u32')
    h.inp('ln', 4, 'u32')
    h.out('g', d.nbytes, 'x.get_%s_range(off, ln)' % b)
    vis = BV(ones(d.N) & ~hid, d.N)

    def ck(I, O):
        inr, mo, m0 = rng_mask(d, I['off'], I['ln'])
        s = _sh(d, I['off'])
        exp = z3.If(inr, z3.LShR(I['st'] & vis & mo, s), BV(0, d.N))
        if free:
            fm = z3.LShR(BV(free, d.N), s)
            return [('range value', (O['g'] & ~fm) == (exp & ~fm)),
                    ('reserved bits read as themselves or 0', (O['g'] & ~exp) == 0)]
        return [('range value', O['g'] == exp)]
    h.checks = ck
    L.append(h)
    h = mkH(d, 'checked_get_%s_range' % b, 'range', 'read')
    h.state(mut=False)
    h.inp('off', 4, 'u32')
    h.inp('ln', 4, 'u32')
    h.out_result('g', 'x.checked_get_%s_range(off, ln)' % b, d.nbytes, lambda v: v)

    def ck2(I, O):
        inr, mo, m0 = rng_mask(d, I['off'], I['ln'])
        s = _sh(d, I['off'])
        ok = B1(O['g_ok'])
        clean = (mo & BV(hid, d.N)) == 0
        touch_free = (mo & BV(free, d.N)) != 0
        return [('Ok when in range and readable', z3.Implies(z3.And(inr, clean, z3.Not(touch_free)), ok)),
                ('Err when out of range or not readable',
                 z3.Implies(z3.And(I['ln'] != 0, z3.Or(z3.Not(inr), z3.Not(clean))), z3.Not(ok))),
                ('range value', z3.Implies(ok, O['g'] == z3.If(inr, z3.LShR(I['st'] & mo, s), BV(0, d.N))))]
    h.checks = ck2
    L.append(h)
    if not d.is_int:
        for h in L:
            split_offsets(d, h, full_offsets)
    return L


def write_ops(d):
    L = []
    if 'write' in d.off:
        return L
    b = d.bob
    A = [('v', d.nbytes, d.bty)]
    Wm = BV(W(d), d.N)
    for e, nm in ((d.write_e, 'write_%s' % b), ('little', 'write_le_%s' % b), ('big', 'write_be_%s' % b)):
        def oracle(S, I, e=e):
            return (S & ~Wm) | (d.write_data(I['v'], e) & Wm)
        L.append(mutator(d, nm, 'x.%s(v)' % nm, oracle, ('write', 'wprot'), A))
        L.append(mutator(d, nm + '_with_defaults', 'x.%s_with_defaults(v)' % nm,
                         (lambda o: lambda S, I: d.defaults(o(S, I)))(oracle), ('write', 'write_def'), A))
    L.append(mutator(d, 'write_defaults', 'x.write_defaults()', lambda S, I: d.defaults(S), ('write', 'write_def')))
    return L


def clear_ops(d):
    L = []
    if 'clear' in d.off:
        return L
    b = d.bob
    L.append(mutator(d, 'clear_%s' % b, 'x.clear_%s()' % b, lambda S, I: d.new_without_defaults(), ('clear',)))
    L.append(mutator(d, 'clear_%s_with_defaults' % b, 'x.clear_%s_with_defaults()' % b, lambda S, I: d.new(),
                     ('clear',)))
    for f in d.fields:
        if f.setter:
            L.append(mutator(d, 'clear_%s' % f.ident, 'x.clear_%s()' % f.ident,
                             (lambda f: lambda S, I: d.put_bits(S, f, d.zero_bits(f)))(f), ('clear', 'wprot')))
            if f.default is not None:
                L.append(mutator(d, 'clear_%s_to_default' % f.ident, 'x.clear_%s_to_default()' % f.ident,
                                 (lambda f: lambda S, I: d.put_bits(S, f, BV(f.default_bits(), f.bits)))(f),
                                 ('clear', 'wprot')))
    return L


def invert_ops(d):
    L = []
    if 'invert' in d.off:
        return L
    b = d.bob
    Wm = BV(W(d), d.N)
    L.append(mutator(d, 'invert_%s' % b, 'x.invert_%s()' % b, lambda S, I: S ^ Wm, ('invert', 'wprot')))
    for f in d.fields:
        if f.setter:
            L.append(mutator(d, 'invert_%s' % f.ident, 'x.invert_%s()' % f.ident,
                             (lambda f: lambda S, I: d.put_bits(S, f, ~d.get_bits(S, f)))(f), ('invert', 'wprot')))
        if f.getter:
            h = mkH(d, '%s_inverted' % f.ident, 'invert', 'read')
            h.state(mut=False)
            h.out('g', f.ty.wire, f.ty.dump('x.%s_inverted()' % f.ident))
            h.checks = (lambda f: lambda I, O: [
                ('inverted value', O['g'] == f.ty.from_(~d.get_bits(I['st'], f)))])(f)
            L.append(h)
    return L


# ------------------------------------------------------------------- builder
def builder_ops(d):
    L = []
    if 'builder' in d.off:
        return L
    L.append(ctor(d, 'Builder::new.build', 'XBuilder::new().build()', lambda I: d.new(), ('builder',)))
    L.append(ctor(d, 'Builder::default.build', '<XBuilder as Default>::default().build()', lambda I: d.new(),
                  ('builder',)))
    L.append(ctor(d, 'Builder::new_without_defaults.build', 'XBuilder::new_without_defaults().build()',
                  lambda I: d.new_without_defaults(), ('builder',)))
    fs = [f for f in d.fields if not f.reserved and f.acc != 'na']
    for f in fs:
        h = mkH(d, 'with_%s' % f.ident, 'builder', 'ty:' + f.ty.kind)
        h.val('v', f.ty)
        h.line('let x = XBuilder::new().with_%s(v).build();' % f.ident)
        h.out_state()
        h.out_ign()
        h.checks = (lambda f: lambda I, O: eqst(d, O['post'], d.set(d.new(), f, I['v_w']), 'state') +
                    zero_ign(d, O))(f)
        L.append(h)
        h = mkH(d, 'checked_with_%s' % f.ident, 'builder', 'checked_with', 'ty:' + f.ty.kind)
        h.val('v', f.ty)
        h.out_result('r', 'XBuilder::new_without_defaults().checked_with_%s(v)' % f.ident, d.nbytes,
                     lambda v: '{ let y = %s.build(); %s }' % (v, d.raw('y')))

        def ck(I, O, f=f):
            ok = f.ty.fits(I['v_w'], f.bits)
            return [('Ok exactly when the value fits', B1(O['r_ok']) == ok)] + \
                [(l, z3.Implies(ok, c)) for l, c in
                 eqst(d, O['r'], d.set(d.new_without_defaults(), f, I['v_w']), 'state')]
        h.checks = ck
        L.append(h)
    # the whole chain, forwards and backwards, equals the setters applied to new()
    if fs:
        for rev in (False, True):
            h = mkH(d, 'with-chain%s' % (' reversed' if rev else ''), 'builder', 'chain')
            seq = list(reversed(fs)) if rev else list(fs)
            for f in seq:
                h.val('v_%s' % f.ident, f.ty)
            ctor_ = 'new_without_defaults' if rev else 'new'
            h.line('let x = XBuilder::%s()%s.build();' % (
                ctor_, ''.join('.with_%s(v_%s)' % (f.ident, f.ident) for f in seq)))
            h.out_state()

            def ck(I, O, seq=seq, rev=rev):
                S = d.new_without_defaults() if rev else d.new()
                for f in seq:
                    S = d.set(S, f, I['v_%s_w' % f.ident])
                return eqst(d, O['post'], S, 'state')
            h.checks = ck
            L.append(h)
    return L


def all_ops(d):
    return (field_ops(d) + new_ops(d) + from_ops(d) + into_ops(d) + slice_ops(d) + bit_ops(d) + range_ops(d) +
            write_ops(d) + clear_ops(d) + invert_ops(d) + builder_ops(d))
