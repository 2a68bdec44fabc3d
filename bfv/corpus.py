"""The bitfield definitions the checks quantify over (the `programs` bound).

core(): hand-written definitions, one per corner of the definition grammar.
rand(): random definitions (fixed seed in quick; VERIF_SEED adds more)."""
import random

from .model import *

F = Field


def D(name, backing, fields, **kw):
    return Def(name, backing, fields, **kw)


def core():
    L = []

    def add(name, backing, fields, **kw):
        L.append(D(name, backing, fields, **kw))

    # ---- one full-width field per backing
    for b in ('u8', 'u16', 'u32', 'u64', 'u128'):
        add('full_' + b, b, [F('a', b)])
        add('full_i_' + b, b, [F('a', 'i' + b[1:])])
    for n in (1, 2, 4, 8, 16):
        add('full_arr%d' % n, n, [F('a', 'u%d' % (8 * n), default=(0x8123456789ABCDEF8123456789ABCDEF & ones(8 * n)))])
        add('full_arr%d_i' % n, n, [F('a', 'i%d' % (8 * n))])
    # ---- eight single bits
    add('bits8', 'u8', [F(c, 'bool') for c in 'abcdefgh'])
    add('bits8_msb', 'u8', [F(c, 'bool') for c in 'abcdefgh'], order='msb')
    add('bits8_arr', 1, [F(c, 'bool', default=(i % 3 == 0)) for i, c in enumerate('abcdefgh')], order='msb')
    add('bits8_u', 'u8', [F(c, 'u8', 1) for c in 'abcdefgh'])
    add('bits16_i', 'u16', [F('f%d' % i, ('i8', 'i16', 'i32', 'i64', 'i128')[i % 5], 1) for i in range(16)])
    # ---- README style
    add('readme_u32', 'u32', [F('a', 'u8', default=0x12), F('b', 'u8', default=0x34),
                              F('c', 'u8', default=0x56), F('d', 'u8', default=0x78)])
    add('readme_u32_msb', 'u32', [F('a', 'u8', default=0x12), F('b', 'u8', default=0x34),
                                  F('c', 'u8', default=0x56), F('d', 'u8', default=0x78)], order='msb')
    # ---- every access kind, every order, int and array
    for bk in ('u32', 4):
        for order in ('lsb', 'msb'):
            add('acc_%s_%s' % (bk, order), bk, [
                F('a', 'u8', 5, default=3), F('b', 'i8', 7, access='wo'), F('c', 'u8', 4, access='ro', default=9),
                F('d', 'bool', 1), F('e', 'u8', 6, access='na', default=0x2a), F('_r', 'u16', 9, default=0x111)],
                order=order)
            add('acc2_%s_%s' % (bk, order), bk, [
                F('_x', 'u8', 3), F('a', 'u16', 11, access='ro'), F('b', 'bool', access='ro', default=1),
                F('c', 'bool', access='wo'), F('_y', 'bool'), F('d', 'i16', 9, access='ro', default=0xFF80),
                F('e', 'u8', 4, access='na'), F('g', 'u8', 2, access='wo', default=2)], order=order)
    # ---- endianness settings
    for bk in ('u16', 'u64', 'u128', 3, 8):
        for fe, ie, we in (('little', 'big', 'big'), ('big', 'little', 'big'), ('big', 'big', 'little'),
                           ('little', 'little', 'little')):
            n = INTS[bk] if isinstance(bk, str) else bk * 8
            fs = [F('a', 'u8', 3, default=5), F('b', 'u16', 9, access='ro', default=0x155), F('c', 'bool', default=1),
                  F('_r', 'u8', 2, default=1)]
            rest = n - 15
            fs.append(F('z', 'u128' if rest > 64 else 'u64' if rest > 32 else 'u32', rest, access='wo'))
            add('end_%s_%s%s%s' % (bk, fe[0], ie[0], we[0]), bk, fs, from_e=fe, into_e=ie, write_e=we,
                order='msb' if fe == ie else 'lsb')
    # ---- signed widths
    for bk in ('u64', 8):
        add('signed_%s' % bk, bk, [
            F('a', 'i8', 1), F('b', 'i8', 2, default=0xFE), F('c', 'i8', 7), F('d', 'i16', 8), F('e', 'i16', 15),
            F('g', 'i32', 3), F('h', 'i64', 28, default=(1 << 64) - 5)])
    for bk in ('u128', 16):
        add('signed_%s' % bk, bk, [
            F('a', 'i128', 1), F('b', 'i128', 65, default=(1 << 128) - (1 << 64)), F('c', 'i64', 33),
            F('d', 'i32', 29, access='ro', default=(1 << 32) - 7)], order='msb')
        add('signed127_%s' % bk, bk, [F('a', 'i128', 127), F('b', 'bool')])
        add('u127_%s' % bk, bk, [F('b', 'bool', default=1), F('a', 'u128', 127, default=(1 << 126) + 1)])
        add('full8_%s' % bk, bk, [F('a', 'i8'), F('b', 'i16'), F('c', 'i32'), F('d', 'i64'), F('e', 'u8')])
    # ---- field types wider than the backing
    add('wide_u8', 'u8', [F('a', 'u32', 4), F('b', 'u16', 3, default=5), F('c', 'i64', 1)])
    add('wide_u16', 'u16', [F('a', 'u128', 9), F('b', 'i32', 5, default=(1 << 32) - 3), F('c', 'u64', 2, access='ro')])
    add('wide_u32', 'u32', [F('a', 'u64', 13), F('b', 'i128', 19)], order='msb')
    add('wide_u64', 'u64', [F('a', 'u128', 40), F('b', 'i128', 24, access='ro')])
    add('wide_arr', 3, [F('a', 'u128', 9), F('b', 'i64', 5), F('c', 'u32', 10)])
    # ---- array fields
    add('af_u32', 'u32', [F('a', 'u8'), F('b', '[u8; 2]' if 0 else arr(2)), F('c', 'u8')])
    add('af_u32_def', 'u32', [F('a', arr(2), default=0xBEEF), F('b', arr(1), default=0x5a, access='ro'),
                              F('c', arr(1), access='wo')])
    add('af_u64_unal', 'u64', [F('a', 'u8', 3), F('b', arr(2), 13), F('c', arr(3), 20, access='ro'), F('d', arr(4), 28)])
    add('af_u64_unal_m', 'u64', [F('a', arr(1), 3, default=5), F('b', arr(2), 9), F('c', arr(6), 44), F('d', 'bool'),
                                 F('e', arr(1), 7)], order='msb')
    add('af_u128', 'u128', [F('a', arr(16))])
    add('af_u128b', 'u128', [F('a', arr(4), 30), F('b', arr(9), 70), F('c', arr(4), 28)])
    add('af_u16_wide', 'u16', [F('a', arr(4), 9), F('b', arr(16), 7)])
    add('af_u32_big', 'u32', [F('a', arr(2)), F('b', arr(20), 16)])
    add('af_arr', 7, [F('a', 'u8', 5), F('b', arr(3)), F('c', arr(2), 11, access='ro', default=0x07AB),
                      F('d', arr(2), access='wo')])
    add('af_arr_m', 8, [F('a', arr(3), 19), F('b', arr(4), 30, default=0x2AAAAAAA), F('c', 'i16', 15)], order='msb')
    add('af_arr_res', 6, [F('_r', arr(2), default=0xA5C3), F('a', arr(3), 21), F('e', arr(1), 5, access='na'),
                          F('_s', arr(1), 6)])
    # ---- custom types
    for bk in ('u64', 8):
        add('cust_%s' % bk, bk, [
            F('a', 'K8', 5), F('b', 'W16', 11, default=0x5AB), F('c', 'K16', 16, access='ro', default=0x1234),
            F('d', 'E2', 2), F('e', 'F8', 2, access='wo'), F('g', 'K8', 3, access='na'), F('h', 'K32', 25)])
        add('cust2_%s' % bk, bk, [
            F('_r', 'K8', 7, default=0x66), F('a', 'W64', 20), F('b', 'N16', 16), F('c', 'F16', 9), F('d', 'K16', 12)],
            order='msb')
    for bk in ('u128', 16):
        add('cust3_%s' % bk, bk, [F('a', 'W128', 100), F('b', 'N8', 8), F('c', 'N16L', 16), F('d', 'K8', 4)])
    add('cust_full', 'u128', [F('a', 'K128', 128)])
    add('cust_full_a', 16, [F('a', 'K128', 128)])
    add('cust_wide', 'u16', [F('a', 'W32', 6), F('b', 'K64', 10)])
    add('nest', 'u64', [F('a', 'N32', 32, default=0xDEADBEEF), F('b', 'N16', 16, access='ro'), F('c', 'N16L', 16)],
        order='msb')
    # ---- ignored fields
    add('ign_u16', 'u16', [F('a', 'u8', default=7), F('ig', 'u32', ignore=True), F('b', 'i8', 5), F('c', 'bool'),
                           F('_r', 'u8', 2, default=2)])
    add('ign_arr', 5, [F('ig', 'u8', ignore=True), F('a', 'u32', 30, default=0x2FEDCBA9), F('ig2', 'bool', ignore=True),
                       F('b', 'u16', 10, access='ro')], order='msb')
    # ---- heap
    add('heap4', 4, [F('a', 'u8', 5, default=3), F('b', 'i16', 10), F('c', 'u8', 4, access='ro', default=9),
                     F('d', 'bool'), F('e', 'u8', 6, access='wo'), F('_r', 'u8', 6, default=0x21)], heap=True)
    add('heap9', 9, [F('a', arr(3), 21, default=0x1F00AA), F('b', 'K16', 13), F('c', 'i64', 38)], heap=True,
        order='msb', from_e='little', into_e='little')
    # ---- larger arrays
    add('arr17', 17, [F('a', 'u128', 128, default=3), F('b', 'i8', 5), F('c', 'u8', 3, access='ro', default=5)])
    add('arr20', 20, [F('a', 'u64', 61), F('_r', 'u8', 5, default=0x15), F('b', 'i64', 64), F('c', arr(4), 30)],
        order='msb')
    add('arr33', 33, [F('a', 'u128', 127, access='ro', default=1 << 120), F('b', 'bool'), F('c', 'i128', 121),
                      F('d', 'u16', 15, access='wo')])
    add('arr40', 40, [F('a', 'u128', 128), F('_r', 'u16', 11, default=0x2A5), F('b', 'u128', 115), F('c', 'u8', 5, default=9),
                      F('d', 'i16', 13), F('e', 'u8', 7, access='ro', default=0x41), F('g', 'u8', 8, access='wo'),
                      F('h', arr(3), 22), F('_s', 'u8', 3), F('i', 'bool'), F('k', 'u8', 7)])
    add('arr72m', 72, [F('a', 'u128', 128), F('b', 'i128', 127), F('c', 'bool', default=1), F('d', arr(9), 67, access='ro'),
                       F('e', 'u64', 61, access='wo'), F('g', 'u128', 128), F('h', 'i16', 12, default=0xFFF5),
                       F('i', 'u64', 52)], order='msb', heap=True)
    # ---- many fields / reserved without attribute / repeated __
    add('many_u64', 'u64', [F('f%d' % i, 'u8', 1 + (i % 3)) for i in range(31)] + [F('z', 'u8', 2)]
        if sum(1 + (i % 3) for i in range(31)) == 62 else
        [F('f%d' % i, 'u8', 2) for i in range(32)])
    add('res_noattr', 'u32', [F('a', 'u8'), F('_r', 'u8'), F('b', 'u8'), F('_s', 'u8')])
    add('res_dunder', 'u32', [F('a', 'u8', 7), F('__', 'u8', 4, default=0xF), F('b', 'u8', 6), F('__', 'u16', 9),
                              F('__', 'bool', default=1), F('c', 'u8', 5)])
    add('res_arr', 4, [F('a', 'u8', 7), F('__', 'u8', 4, default=0xF), F('b', 'u8', 6), F('__', 'u16', 9),
                       F('__', 'bool', default=1), F('c', 'u8', 5)], order='msb')
    add('res_sign', 'u16', [F('_r', 'i8', 5, default=0xFD), F('a', 'u16', 11)])
    # ---- default forms
    add('def_forms', 'u64', [
        F('a', 'u8', 6, default=0x2D, dtext='C_A'), F('b', 'u8', 5, default=0x15, dtext='c_b()'),
        F('c', 'u16', 12, default=0xABC, dtext='0xABC'), F('d', 'u16', 11, default=0x2AA, dtext='0b010_1010_1010'),
        F('e', 'u32', 9, default=0o123, dtext='0o123'), F('g', 'u8', 7, default=99, dtext='99u8'),
        F('h', 'i8', 6, default=0xF3, dtext='-13'), F('i', 'i16', 8, default=0x00C5, dtext='0xC5')],
        items='const C_A: u8 = 0x2D; const fn c_b() -> u8 { 0x15 }\n')
    add('def_over', 'u32', [   # non-literal defaults wider than the field are truncated
        F('a', 'u8', 4, default=0x0B, dtext='C_A'), F('b', 'u16', 10, default=0x155, dtext='c_b()'),
        F('c', 'u32', 18, default=0x3FFFF, dtext='0x3FFFF', access='ro')],
        items='const C_A: u8 = 0x0B; const fn c_b() -> u16 { 0x155 }\n')
    add('def_path', 4, [
        F('a', 'u8', 4, default=0x0B, dtext='m::C_A'), F('b', 'i16', 10, default=0xFFF1, dtext='m::c_b()'),
        F('c', 'bool', default=1, dtext='m::C_C'), F('d', 'u32', 17, default=0x1FFFF, access='ro', dtext='0x1FFFF')],
        items='mod m { pub const C_A: u8 = 0x0B; pub const C_C: bool = true; pub const fn c_b() -> i16 { -15 } }\n')
    for bk in ('u64', 8):
        add('def_expr_%s' % bk, bk, [
            F('a', 'u8', 8, default=0x5A, dtext='BUF32'), F('b', 'u8', 7, default=0x33, dtext='S.x'),
            F('c', 'u8', 8, default=0x11, dtext='0x10 | 1', access='ro'), F('d', 'i16', 9, default=0xFFF1, dtext='-0xF'),
            F('e', 'u32', 17, default=0x1A0B, dtext='0b1_1010 << 8 | BITS_F64 as u32'),
            F('g', 'i32', 12, default=(1 << 32) - 2048, dtext='-2_048i32', access='ro'),
            F('_r', 'u8', 3, default=6, dtext='0o6')],
            items='const BUF32: u8 = 0x5A; struct P { x: u8 } const S: P = P { x: 0x33 }; const BITS_F64: u8 = 0xB;\n')
    # ---- raw identifiers, visibility, options off
    add('raw_ident', 'u32', [F('r#type', 'u8', 5, default=9), F('r#fn', 'i8', 7), F('A_b', 'u32', 20)])
    add('vis', 'u32', [F('a', 'u8', 5, pub='pub '), F('b', 'u8', 7, pub='pub(crate) '), F('c', 'u32', 20)])
    add('nonew', 'u32', [F('a', 'u8', 5, default=9), F('b', 'u32', 20), F('_r', 'u8', 7, default=0x55)], args='new = false', off=('new',))
    add('nocopy', 'u16', [F('a', 'u8', 5, default=9), F('b', 'u16', 11)], args='copy = false')
    return L


def pick_ty(rng, w, is_int, backing_bits, allow_custom=True, allow_arr=True):
    opts = []
    for n, s in INTS.items():
        if s >= w:
            # prefer the tight type
            tight = all(not (w <= s2 < s) for s2 in (8, 16, 32, 64, 128))
            opts += [n] * (6 if tight else 1)
    if w == 1:
        opts += ['bool'] * 14
    if allow_custom:
        for c in ('W8', 'W16', 'W32', 'W64', 'W128', 'K8', 'K16', 'K32', 'K64', 'K128'):
            b = TY[c].bits
            if b >= w and b < 2 * max(w, 8):
                opts += [c]
        if w == 16:
            opts += ['N16', 'N16L']
        if w == 8:
            opts += ['N8']
        if w >= 2 and w <= 8:
            opts += ['E2', 'F8']
    if allow_arr:
        k = (w + 7) // 8
        opts += [arr(k)] * 2
        if k < 16:
            opts += [arr(k + 1)]
    if w > 128:
        return arr((w + 7) // 8)
    o = rng.choice(opts)
    return TY[o] if isinstance(o, str) else o


def rand_def(rng, name, backing=None, order=None, heap=None):
    if backing is None:
        backing = rng.choice(['u8', 'u16', 'u32', 'u32', 'u64', 'u64', 'u128', 1, 2, 3, 4, 5, 7, 8, 11, 16, 19])
    is_int = isinstance(backing, str)
    N = INTS[backing] if is_int else 8 * backing
    order = order or rng.choice(['lsb', 'msb'])
    fs = []
    left = N
    i = 0
    style = rng.choice(['small', 'mixed', 'big'])
    ignored = rng.random() < 0.12
    while left:
        mx = {'small': 9, 'mixed': 40, 'big': 100}[style]
        w = rng.randint(1, min(left, mx))
        if rng.random() < 0.15:
            w = min(left, rng.choice([1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]))
        if len(fs) > 14:
            w = min(left, 128)
        ty = pick_ty(rng, w, is_int, N)
        reserved = rng.random() < 0.15
        acc = None
        default = None
        if reserved:
            nm = rng.choice(['_r%d' % i, '__'])
        else:
            nm = 'f%d' % i
            acc = rng.choice([None, None, None, None, 'rw', 'ro', 'wo', 'na'])
        if rng.random() < 0.45:
            bits = rng.getrandbits(w)
            if rng.random() < 0.3:
                bits = rng.choice([ones(w), 1 << (w - 1), 1, 0])
            default = raw_of(ty, bits, w)
        explicit = w if (ty.size != w or rng.random() < 0.3) else None
        if ty.kind == 'custom':
            explicit = w
        fs.append(F(nm, ty, explicit, access=acc, default=default))
        left -= w
        i += 1
    if all(f.reserved for f in fs):
        fs[0].name = 'f0'
    if ignored:
        fs.insert(rng.randint(0, len(fs)), F('ig', rng.choice(['u8', 'u32', 'bool', 'i64']), ignore=True))
    e = [rng.choice(['big', 'big', 'little']) for _ in range(3)]
    if heap is None:
        heap = (not is_int) and rng.random() < 0.25
    return D(name, backing, fs, order=order, from_e=e[0], into_e=e[1], write_e=e[2], heap=heap)


def raw_of(ty, bits, w):
    """a wire value whose field bits are `bits`"""
    if ty.kind == 'int':
        if ty.signed and bits >> (w - 1):
            return (bits | (ones(ty.size) & ~ones(w)))
        return bits
    if ty.kind in ('array', 'bool'):
        return bits
    if isinstance(ty, (EnumTy, FlagTy)):
        return bits % len(ty.variants)
    if isinstance(ty, NestTy):
        return bits & ones(ty.bits)
    return (bits ^ ty.key) & ones(ty.bits)


def rand(n, seed, tag='r'):
    rng = random.Random(seed)
    return [rand_def(rng, '%s%d' % (tag, i)) for i in range(n)]


def rand_switched(n, seed, tag='w'):
    """random fields, some ignored, under random switches: pairs of switch and structure"""
    from .ops2 import GROUPS, OFFKEY
    rng = random.Random(seed)
    L = []
    gs = []
    for i in range(n):
        if not gs:
            gs = list(GROUPS)
            rng.shuffle(gs)
        off = {gs.pop()} | {g for g in GROUPS if rng.random() < 0.12}
        d = rand_def(rng, '%s%d' % (tag, i), backing=rng.choice(['u8', 'u16', 'u32', 'u64', 1, 3, 4, 5]))
        fs = [f for f in d.allfields if not f.ignore]
        for k in range(rng.choice([0, 1, 1, 2])):
            fs.insert(rng.randint(0, len(fs)), F('ig%d' % k, rng.choice(['u8', 'u32', 'bool']), ignore=True))
        off = sorted(off)
        rng.shuffle(off)
        L.append(D(d.name, d.backing, fs, order=d.order, from_e=d.from_e, into_e=d.into_e, write_e=d.write_e,
                   heap=d.heap, args=', '.join('%s = false' % g for g in off), off=[OFFKEY[g] for g in off]))
    return L


def corpus(tier, seed, n_quick=72, n_seed=8, n_thorough=400):
    L = core()
    if tier == 'thorough':
        L += rand(n_thorough, 20240601, 'r')
        L += rand_switched(120, 77)
        L += rand(n_seed * 4, 7000 + seed, 's')
    else:
        L += rand(n_quick, 20240601, 'r')
        L += rand_switched(n_quick // 2, 77)
        L += rand(n_seed, 7000 + seed, 's')
    return L


def rand_custom(n, seed, tag='c'):
    """every field of a custom type"""
    rng = random.Random(seed)
    L = []
    for i in range(n):
        backing = rng.choice(['u16', 'u32', 'u64', 'u128', 2, 4, 5, 8, 12, 16])
        N = INTS[backing] if isinstance(backing, str) else 8 * backing
        fs = []
        left = N
        j = 0
        while left:
            c = rng.choice(['W8', 'W16', 'W32', 'W64', 'W128', 'K8', 'K16', 'K32', 'K64', 'K128', 'N8', 'N16', 'N16L',
                            'N32', 'E2', 'E3L', 'E16', 'F8', 'F8s', 'F16'])
            t = TY[c]
            if isinstance(t, NestTy):
                w = t.bits
            elif isinstance(t, (EnumTy, FlagTy)):
                w = rng.randint(max(v.bit_length() for v in t.variants), t.bits)
            else:
                w = rng.randint(1, t.bits)
            if w > left:
                w = left
                if isinstance(t, (NestTy, EnumTy, FlagTy)):
                    t = TY[rng.choice(['W128', 'K128'])]
            r = rng.random()
            nm = '_r%d' % j if r < 0.1 else 'f%d' % j
            acc = None if nm[0] == '_' else rng.choice([None, None, None, 'ro', 'wo', 'na'])
            default = None
            if rng.random() < 0.4:
                default = raw_of(t, rng.getrandbits(w), w)
            fs.append(F(nm, t, w, access=acc, default=default))
            left -= w
            j += 1
        if all(f.reserved for f in fs):
            fs[0].name = 'f0'
        L.append(D('%s%d' % (tag, i), backing, fs, order=rng.choice(['lsb', 'msb'])))
    return L


def rand_ignored(n, seed, tag='g'):
    rng = random.Random(seed)
    L = []
    for i in range(n):
        d = rand_def(rng, '%s%d' % (tag, i), backing=rng.choice(['u8', 'u16', 'u32', 'u64', 'u128', 1, 3, 4, 8, 10]))
        fs = [f for f in d.allfields if not f.ignore]
        for k in range(rng.randint(1, 3)):
            fs.insert(rng.randint(0, len(fs)), F('ig%d' % k, rng.choice(['u8', 'u32', 'bool', 'i64', 'u16', 'u128']),
                                                 ignore=True))
        L.append(D(d.name, d.backing, fs, order=d.order, from_e=d.from_e, into_e=d.into_e, write_e=d.write_e,
                   heap=d.heap))
    return L
