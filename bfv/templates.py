"""Definitions with symbolic text, and the documented verdict on each."""
import z3

from .macrox import S, T

LEAN = ', new = false, from_into_bits = false, from_traits = false, default = false, debug = false, ' \
       'builder = false, bit_ops = false'
FALSE = z3.BoolVal(False)
KW4 = ['else', 'enum', 'impl', 'loop', 'move', 'priv', 'self', 'true', 'type']       # not names


W = [160]     # width of the arithmetic in the documented verdict


def K(x):
    return z3.BitVecVal(x, W[0])


class Fd:
    """one field: width is an int, None (from the type) or a number of symbolic digits as S;
    default: None or (prefix text, S, base, negative)"""

    def __init__(self, name, ty, tybits, width=None, default=None, access=None, ignore=False, signed=False, wbase=10):
        self.wbase = wbase
        self.name = name
        self.ty = ty if isinstance(ty, list) else [ty]
        self.tybits = tybits
        self.width = width
        self.default = default
        self.access = access
        self.ignore = ignore
        self.signed = signed
        self.reserved = name.startswith('_')

    def parts(self):
        a = []
        if self.ignore:
            a = ['#[bits(ignore = true)] ']
        elif self.width is not None or self.default or self.access:
            a = ['#[bits(']
            sep = ''
            if self.width is not None:
                a += self.width if isinstance(self.width, list) else [self.width if isinstance(self.width, S) else str(self.width)]
                sep = ', '
            if self.access:
                a += [sep + 'access = ', self.access]
                sep = ', '
            if self.default:
                pre, s = self.default[:2]
                a += [sep + 'default = ' + pre] + (s if isinstance(s, list) else [s]) + list(self.default[4:])
            a += [')] ']
        return a + [self.name + ': '] + self.ty + [', ']


def layout(name, backing, nbits, fields, order='lsb', lean=True, extra=None, args=''):
    """backing: text or parts; nbits: int or function of V"""
    A = (backing if isinstance(backing, list) else [backing]) + \
        [', order = msb' if order == 'msb' else '', LEAN if lean else '', args]
    I = ['struct X { ']
    for f in fields:
        I += f.parts()
    I += ['}']
    named = [f for f in fields if not f.ignore and not f.reserved]

    wide = any(f.default and f.tybits > 32 for f in fields)

    def want(v):
        W[0] = v.w = 160 if wide else 48
        N = K(nbits) if isinstance(nbits, int) else nbits(v)
        ok = []
        free = []
        off = K(0)
        offs = {}
        for f in fields:
            if f.ignore:
                continue
            tb = None if f.tybits is None else (K(f.tybits) if isinstance(f.tybits, int) else f.tybits(v))
            w = tb if f.width is None else (K(f.width) if isinstance(f.width, int) else fullnum(v, f.width, f.wbase))
            ok.append(w != 0)
            if tb is not None:
                ok.append(z3.ULE(w, tb))
                ok.append(tb != 0)
            if f.access is not None:
                ok.append(v.oneof(f.access.name, ('ro', 'rw', 'wo', 'na')) if not f.reserved else FALSE)
            if f.default:
                pre, s, base, neg = f.default[:4]
                d = fullnum(v, s, base)
                one = K(1)
                # literals outside the field's type are left to rustc
                free.append(z3.UGE(d, K(1 << f.tybits)) if not neg else z3.UGT(d, K(1 << (f.tybits - 1))))
                if neg:
                    ok.append(z3.BoolVal(f.signed))
                    ok.append(z3.ULE(d, one << (w - 1)))
                else:
                    ok.append(z3.ULT(d, one << w))
                    if f.signed:
                        free.append(z3.And(z3.UGE(d, one << (w - 1)), z3.ULT(d, one << w)))
            offs[f.name] = (w, off)
            off = off + w
        ok.append(off == N)
        ok.append(N != 0)
        cs = []
        for f in named:
            w, o = offs[f.name]
            cs.append((f.name.upper() + '_BITS', w))
            cs.append((f.name.upper() + '_OFFSET', o if order == 'lsb' else N - w - o))
        if not isinstance(nbits, int):      # lengths whose bit count does not fit 32 bits are beyond the limits
            free.append(z3.UGE(N, K(1 << 32)))
        for f in fields:
            if not f.ignore and f.tybits is not None and not isinstance(f.tybits, int):
                free.append(z3.UGE(f.tybits(v), K(1 << 32)))
        ex_ok, ex_free = extra(v) if extra else (None, None)
        if ex_ok is not None:
            ok.append(ex_ok)
        if ex_free is not None:
            free.append(ex_free)
        return z3.And(*ok), z3.Or(*free) if free else FALSE, cs
    cn = [f.name.upper() + x for f in named for x in ('_BITS', '_OFFSET')]
    return T(name, A, I, want, consts=cn)


def fullnum(v, s, base):
    """number spelled by text and symbolic parts"""
    r = K(0)
    for p in s if isinstance(s, list) else [s]:
        if isinstance(p, str):
            for c in p[2:] if p[:2] in ('0x', '0b') else p:
                if c != '_':
                    r = r * base + int(c, base)
        else:
            for _ in range(p.n):
                r = r * base
            r = r + v.num(p.name, base)
    return r


def templates(tier):
    L = []
    d2 = lambda n: S(n, 2)
    d3 = lambda n: S(n, 3)
    # ---- widths: every pair or triple of widths, types, order, backing
    L.append(layout('u8 lsb: 3 fields', 'u8', 8, [Fd('a', 'u8', 8, S('a', 1)), Fd('b', 'i8', 8, S('b', 1), signed=True),
                                                  Fd('c', 'u16', 16, S('c', 1))]))
    L.append(layout('u16 msb: types u8 and u16', 'u16', 16, [Fd('a', 'u8', 8, d2('a')), Fd('b', 'u16', 16, d2('b'))],
                    'msb'))
    L.append(layout('u32 lsb: types i16, u8 with reserved and ignored fields', 'u32', 32,
                    [Fd('a', 'i16', 16, d2('a')), Fd('_r', 'u8', 8, d2('b')), Fd('z', 'u64', 64, ignore=True),
                     Fd('c', 'u8', 8)]))
    L.append(layout('u64 msb: types u64, i32', 'u64', 64, [Fd('a', 'u64', 64, d2('a')), Fd('b', 'i32', 32, d2('b'))],
                    'msb'))
    L.append(layout('u128 lsb: types u128, i128', 'u128', 128, [Fd('a', 'u128', 128, d3('a')),
                                                                Fd('b', 'i128', 128, d3('b'))]))
    L.append(layout('u128 msb: types u64, u128', 'u128', 128, [Fd('a', 'u64', 64, d3('a')),
                                                               Fd('b', 'u128', 128, d3('b'))], 'msb'))
    L.append(layout('[u8; n] lsb: n, two widths', ['[u8; ', S('n', 1), ']'], lambda v: v.num('n') * 8,
                    [Fd('a', 'u64', 64, d2('a')), Fd('b', 'u32', 32, d2('b'))]))
    L.append(layout('[u8; n] msb: two-digit n, a width and an array field', ['[u8; ', d2('n'), ']'],
                    lambda v: v.num('n') * 8, [Fd('a', 'u128', 128, d2('a')),
                                               Fd('b', ['[u8; ', S('m', 1 if tier == 'quick' else 2), ']'],
                                                  lambda v: v.num('m') * 8)], 'msb'))
    L.append(layout('array field narrower than its type', '[u8; 4]', 32,
                    [Fd('a', ['[u8; ', S('m', 1), ']'], lambda v: v.num('m') * 8, d2('a')), Fd('b', 'u32', 32, d2('b'))]))
    L.append(layout('custom types have no width limit', '[u8; 25]', 200,
                    [Fd('a', 'W128', None, d3('a')), Fd('b', 'u128', 128, d3('b'))],
                    extra=lambda v: (None, z3.UGT(v.num('a'), 128))))
    L.append(layout('bool width', 'u8', 8, [Fd('a', 'bool', 1, S('a', 1)), Fd('b', 'u8', 8, S('b', 1))], lean=True))
    L.append(layout('inferred widths', 'u32', 32, [Fd('a', 'u8', 8), Fd('b', 'bool', 1), Fd('c', 'i16', 16),
                                                   Fd('_x', 'u16', 16, d2('x'))], 'msb'))
    L.append(layout('all generation on, u8', 'u8', 8, [Fd('a', 'u8', 8, S('a', 1)), Fd('b', 'i8', 8, S('b', 1))],
                    lean=False))
    L.append(layout('all generation on, [u8; 2]', '[u8; 2]', 16, [Fd('a', 'u8', 8, S('a', 1)), Fd('b', 'u16', 16, d2('b'))],
                    'msb', lean=False))
    # ---- widths and lengths that do not fit 32 bits
    def big(n):
        return ['42949672', S(n, 2)]
    L.append(layout('width beyond 32 bits', 'u8', 8, [Fd('a', 'W128', None, big('a')), Fd('b', 'u8', 8, S('b', 1))]))
    L.append(layout('widths with a sum beyond 32 bits', 'u8', 8, [Fd('a', 'W128', None, big('a')),
                                                                  Fd('b', 'W128', None, big('b'))]))
    L.append(layout('widths with a sum beyond 32 bits, msb', 'u8', 8,
                    [Fd('a', 'u8', 8, S('a', 1)), Fd('b', 'W128', None, big('b')), Fd('c', 'W128', None, S('c', 1))], 'msb'))
    L.append(layout('array length beyond 32 bits', ['[u8; 42949672', S('n', 2), ']'],
                    lambda v: (v.num('n') + 4294967200) * 8, [Fd('a', 'u8', 8, S('a', 1))]))
    L.append(layout('array bits beyond 32 bits', ['[u8; 5368709', S('n', 2), ']'],
                    lambda v: (v.num('n') + 536870900) * 8, [Fd('a', 'u128', 128, d3('a'))]))
    L.append(layout('field array length beyond 32 bits', 'u8', 8,
                    [Fd('a', ['[u8; 42949672', S('n', 2), ']'], lambda v: (v.num('n') + 4294967200) * 8, S('a', 1)),
                     Fd('b', 'u8', 8, S('b', 1))]))
    L.append(layout('field array bits beyond 32 bits', 'u8', 8,
                    [Fd('a', ['[u8; 5368709', S('n', 2), ']'], lambda v: (v.num('n') + 536870900) * 8, S('a', 1)),
                     Fd('b', 'u8', 8, S('b', 1))]))
    L.append(layout('default of a field wider than any integer', '[u8; 25]', 200,
                    [Fd('a', 'u8', 8, d3('a'), default=('', S('d', 1), 10, False)), Fd('b', 'W128', None, 60),
                     Fd('c', 'u128', 128, 120)]))
    # ---- defaults
    th = tier == 'thorough'
    for nm, ty, bits, sg, neg in (('u8', 'u8', 8, False, False), ('u16', 'u16', 16, False, False),
                                  ('i8', 'i8', 8, True, False), ('-i8', 'i8', 8, True, True),
                                  ('-u8', 'u8', 8, False, True), ('-i16', 'i16', 16, True, True)):
        pre = '-' if neg else ''
        L.append(layout('decimal default %s, any width' % nm, 'u8' if not th else 'u16', 8 if not th else 16,
                        [Fd('a', ty, bits, S('a', 1) if not th else d2('a'),
                            default=(pre, d2('d') if not th else d3('d'), 10, neg), signed=sg),
                         Fd('b', 'u16', 16, S('b', 1) if not th else d2('b'))]))
        for w in ({'u16': (10,), '-i16': (16,)}.get(nm, (1, bits - 1, bits)) if not th else range(1, bits + 1)):
            n = len(str((1 << w) - 1))
            L.append(layout('decimal default %s, width %d' % (nm, w), '[u8; 3]', 24,
                            [Fd('a', ty, bits, w, default=(pre, S('d', n + (n < 5)), 10, neg), signed=sg),
                             Fd('b', 'u32', 32, 24 - w)]))
    for w in range(1, 13):
        if th or w in (3, 11):
            L.append(layout('hex default, width %d' % w, 'u16', 16,
                            [Fd('a', 'u16', 16, w, default=('0x', S('d', 3 if th or w > 8 else 2, 'h'), 16, False)),
                             Fd('b', 'u16', 16, 16 - w)]))
        if th or w in (4, 8):
            L.append(layout('negative hex default, width %d' % w, 'u16', 16,
                            [Fd('a', 'i16', 16, w, default=('-0x', S('d', 3 if th else 2, 'h'), 16, True), signed=True),
                             Fd('b', 'u16', 16, 16 - w)]))
        if th or w in (3, 6):
            L.append(layout('binary default, width %d' % w, '[u8; 2]', 16,
                            [Fd('a', 'u16', 16, w, default=('0b', S('d', min(w + 3, 12) if th else w + 1, 'b'), 2, False)),
                             Fd('_b', 'u16', 16, 16 - w)], 'msb'))
        if th or w == 7:
            L.append(layout('octal default with a separator, width %d' % w, '[u8; 2]', 16,
                            [Fd('_a', 'u16', 16, w, default=('0o', [S('d', 2 if th else 1, 'o'), '_', S('e', 2, 'o')], 8, False)),
                             Fd('b', 'u16', 16, 16 - w)]))
    L.append(layout('defaults of both fields', 'u8', 8,
                    [Fd('a', 'u8', 8, 3, default=('', d2('d'), 10, False)),
                     Fd('b', 'i8', 8, 5, default=('-', d2('e'), 10, True), signed=True)], 'msb'))
    L.append(layout('u128 default at the limit', 'u128', 128,
                    [Fd('a', 'u128', 128, 128, default=('', ['3402823669209384634633746074317682114', d2('d')], 10, False))]))
    L.append(layout('u128 127-bit default at the limit', 'u128', 128,
                    [Fd('a', 'u128', 128, 127, default=('', ['1701411834604692317316873037158841057', d2('d')], 10, False)),
                     Fd('b', 'bool', 1)]))
    L.append(layout('i128 negative default at the limit', 'u128', 128,
                    [Fd('a', 'i128', 128, 128, default=('-', ['1701411834604692317316873037158841057', d2('d')], 10, True),
                        signed=True)]))
    L.append(layout('u64 default at the limit', 'u64', 64,
                    [Fd('a', 'u64', 64, 64, default=('', ['184467440737095516', d2('d')], 10, False))]))
    L.append(layout('u64 63-bit default at the limit', 'u64', 64,
                    [Fd('a', 'u64', 64, 63, default=('', ['92233720368547758', d2('d')], 10, False)), Fd('b', 'bool', 1)]))
    L.append(layout('i64 negative default at the limit', 'u64', 64,
                    [Fd('a', 'i64', 64, d2('a'), default=('-', ['92233720368547758', d2('d')], 10, True), signed=True),
                     Fd('b', 'u8', 8, S('b', 1))]))
    # ---- words
    L.append(layout('access', 'u8', 8, [Fd('a', 'u8', 8, S('a', 1), access=S('x', 2, 'a')),
                                        Fd('b', 'u8', 8, S('b', 1), access=S('y', 2, 'a'))]))
    L.append(layout('access of a reserved field', 'u8', 8, [Fd('a', 'u8', 8, 4), Fd('_b', 'u8', 8, S('b', 1),
                                                                                  access=S('y', 2, 'a'))]))

    def word(name, key, n, good, lean=True):
        A = ['u8, %s = ' % key, S('w', n, 'a'), LEAN if lean else '']
        L.append(T(name, A, ['struct X { a: u8 }'], lambda v: (v.oneof('w', good), FALSE, [])))
    word('order', 'order', 3, ('lsb', 'msb'))
    for k in ('from_endian', 'into_endian', 'write_endian'):
        word('%s, 3 letters' % k, k, 3, ('big',))
        word('%s, 6 letters' % k, k, 6, ('little',))
    for k in ('toggle_bit_ops', 'copy', 'array_heap'):
        word('%s, 4 letters' % k, k, 4, ('true',))
        word('%s, 5 letters' % k, k, 5, ('false',))
    BOOL = ('new', 'from_into_bits', 'from_traits', 'default', 'debug', 'copy', 'bit_ops', 'write_bit_ops',
            'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops', 'toggle_bit_ops', 'builder', 'array_heap')
    S.CLS['_'] = 'abcdefghijklmnopqrstuvwxyz_'
    for n in ((3, 4, 5, 7) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15)):
        L.append(T('argument name of %d letters' % n, ['u8, ', S('w', n, '_'), ' = false'], ['struct X { a: u8 }'],
                   lambda v, n=n: (v.oneof('w', [b for b in BOOL if len(b) == n]),
                                   v.oneof('w', ['force_panic']), [])))
    for n in (6, 7):
        L.append(T('field argument name of %d letters' % n, ['u8' + LEAN],
                   ['struct X { #[bits(8, ', S('w', n, '_'), ' = 1)] a: u8 }'],
                   lambda v, n=n: (v.oneof('w', [b for b in ('default',) if len(b) == n]), FALSE, [])))
    # ---- the backing type
    def backing(name, parts, good, width):
        def want(v):
            W[0] = v.w = 160
            N = K(0)
            ok = []
            for txt, n in good:
                c = v.isstr('t', txt)
                ok.append(c)
                N = z3.If(c, K(n), N)
            return z3.And(z3.Or(*ok) if ok else FALSE, v.num('a') == N), FALSE, []
        L.append(T(name, parts + [LEAN], ['struct X { #[bits(', S('a', width), ')] a: u128 }'], want))
    backing('backing u?', ['u', S('t', 1)], [('8', 8)], 2)
    backing('backing u??', ['u', S('t', 2)], [('16', 16), ('32', 32), ('64', 64)], 2)
    backing('backing u???', ['u', S('t', 3)], [('128', 128)], 3)
    backing('backing i??', ['i', S('t', 2)], [], 2)
    # ---- the field type
    def ftype(name, pre, n, good, w):
        def want(v):
            W[0] = v.w = 160
            tb = K(0)
            known = FALSE
            for txt, b in good:
                c = v.isstr('t', txt)
                known = z3.Or(known, c)
                tb = z3.If(c, K(b), tb)
            a, b = v.num('a'), v.num('b')
            return z3.And(a != 0, b != 0, a + b == w, z3.ULE(a, tb)), z3.Not(known), \
                [('A_BITS', a), ('A_OFFSET', K(0))]
        L.append(T(name, ['u%d' % w + LEAN],
                   ['struct X { #[bits(', S('a', len(str(w))), ')] a: ' + pre, S('t', n), ', #[bits(',
                    S('b', len(str(w))), ')] b: u%d }' % w], want, consts=['A_BITS', 'A_OFFSET']))
    ftype('field type u??', 'u', 2, [('16', 16), ('32', 32), ('64', 64)], 64)
    ftype('field type i??', 'i', 2, [('16', 16), ('32', 32), ('64', 64)], 32)
    ftype('field type i???', 'i', 3, [('128', 128)], 128)
    # ---- names
    S.CLS['n'] = 'ab_'
    L.append(T('field names', ['u8' + LEAN],
               ['struct X { #[bits(4)] ', S('p', 1, 'n'), 'x: u8, #[bits(4)] ', S('q', 1, 'n'), 'x: u8 }'],
               lambda v: (z3.Or(v.t.parts['p'][0][0] != v.t.parts['q'][0][0], v.isstr('p', '_')), FALSE, [])))
    # ---- bitflags
    # ---- other spellings of widths and defaults
    L.append(layout('hexadecimal widths', 'u16', 16,
                    [Fd('a', 'u16', 16, ['0x', S('a', 1, 'h')], wbase=16), Fd('b', 'u8', 8, ['0x', S('b', 1, 'h')], wbase=16)]))
    L.append(layout('widths with separators', 'u128', 128,
                    [Fd('a', 'u128', 128, [S('a', 1, 'D'), '_', S('c', 1)]), Fd('b', 'u64', 64, ['0_', S('b', 2)])], 'msb'))
    L.append(layout('binary widths', 'u8', 8,
                    [Fd('a', 'u8', 8, ['0b', S('a', 4, 'b')], wbase=2), Fd('b', 'u8', 8, ['0b', S('b', 4, 'b')], wbase=2)]))
    for suf, ty, bits, sg in (('u8', 'u8', 8, False), ('i32', 'i32', 32, True)) if not th else (
            ('u8', 'u8', 8, False), ('u16', 'u16', 16, False), ('u32', 'u32', 32, False), ('u64', 'u64', 64, False),
            ('u128', 'u128', 128, False), ('i8', 'i8', 8, True), ('i16', 'i16', 16, True), ('i32', 'i32', 32, True),
            ('i64', 'i64', 64, True), ('i128', 'i128', 128, True)):
        L.append(layout('default with suffix ' + suf, 'u128', 128,
                        [Fd('a', ty, bits, 6, default=('', S('d', 2), 10, False, suf), signed=sg),
                         Fd('b', 'u128', 128, 122)]))
        L.append(layout('hex default with suffix ' + suf, 'u128', 128,
                        [Fd('a', ty, bits, 6, default=('0x', S('d', 2, 'h'), 16, False, '_' + suf), signed=sg),
                         Fd('b', 'u128', 128, 122)]))
        if sg:
            L.append(layout('negative default with suffix ' + suf, 'u128', 128,
                            [Fd('a', ty, bits, 6, default=('-', S('d', 2), 10, True, suf), signed=True),
                             Fd('b', 'u128', 128, 122)]))
    L.append(layout('four fields', 'u32', 32, [Fd('a', 'u8', 8, S('a', 1)), Fd('b', 'u8', 8, S('b', 1)),
                                               Fd('_r', 'u32', 32, d2('c')), Fd('d', 'bool', 1, S('d', 1))], 'msb'))
    L.append(T('width after an argument', ['u8' + LEAN], ['struct X { #[bits(access = rw, ', S('a', 1), ')] a: u8 }'],
               lambda v: (FALSE, FALSE, [])))
    L.append(T('bool default', ['u8' + LEAN], ['struct X { #[bits(1, default = ', S('w', 4, 'a'), ')] a: bool, #[bits(7)] b: u8 }'],
               lambda v: (v.isstr('w', 'true'), z3.Not(v.isstr('w', 'true')), [])))
    L.append(T('ignore', ['u8' + LEAN], ['struct X { #[bits(ignore = ', S('w', 4, 'a'), ')] a: u8, b: u8 }'],
               lambda v: (v.isstr('w', 'true'), FALSE, [])))
    for nm, n, good in (('bitflag backing u?', 1, ('8',)), ('bitflag backing u??', 2, ('16', '32', '64')),
                        ('bitflag backing u???', 3, ('128',))):
        L.append(T(nm, ['u', S('t', n)], ['enum X { #[base] A = ', S('a', 1), ', B = ', S('b', 2), ' }'],
                   lambda v, good=good: (v.oneof('t', good), v.num('a') == v.num('b'), []), kind=1))
    L.append(T('bitflag attribute of a variant', ['u8'], ['enum X { #[', S('w', 4, 'a'), '] A = 1, B = 2 }'],
               lambda v: (v.isstr('w', 'base'), FALSE, []), kind=1))
    L.append(T('bitflag attributes of two variants', ['u8'],
               ['enum X { #[', S('w', 4, 'a'), '] A = 1, #[', S('x', 4, 'a'), '] B = 2 }'],
               lambda v: (v.isstr('w', 'base') != v.isstr('x', 'base'),
                          z3.Or(v.oneof('w', KW4), v.oneof('x', KW4)), []), kind=1))
    L.append(T('bitflag attributes of three variants', ['u8'],
               ['enum X { #[b', S('w', 3, 'a'), '] A = 1, #[', S('x', 1, 'a'), 'ase] B = 2, #[bas', S('y', 1, 'a'), '] C = 4 }'],
               lambda v: ((lambda a, b, c: z3.Or(z3.And(a, z3.Not(b), z3.Not(c)), z3.And(b, z3.Not(a), z3.Not(c)),
                                                 z3.And(c, z3.Not(a), z3.Not(b))))(
                   v.isstr('w', 'ase'), v.isstr('x', 'b'), v.isstr('y', 'e')), FALSE, []), kind=1))
    for n in (3, 4):
        for m in range(1 << n):
            it = ['enum X { ']
            for k in range(n):
                it += ['#[base] ' if m >> k & 1 else '', 'ABCD'[k] + ' = %d' % k, S('v%d' % k, 1), ', ']
            L.append(T('bitflag with %d variants, base at %s' % (n, format(m, '0%db' % n)), ['u8'], it + ['}'],
                       lambda v, m=m: (z3.BoolVal(bin(m).count('1') == 1), FALSE, []), kind=1))
    L.append(T('bitflag from_endian', ['u16, from_endian = ', S('w', 3, 'a')], ['enum X { #[base] A = 1 }'],
               lambda v: (v.isstr('w', 'big'), FALSE, []), kind=1))
    L.append(T('bitflag into_endian', ['u16, into_endian = ', S('w', 6, 'a')], ['enum X { #[base] A = 1 }'],
               lambda v: (v.isstr('w', 'little'), FALSE, []), kind=1))
    L.append(T('bitflag argument name', ['u16, ', S('w', 4, 'a'), ' = true'], ['enum X { #[base] A = 1 }'],
               lambda v: (v.isstr('w', 'copy'), FALSE, []), kind=1))
    for t in L:
        t.cost = sum(p.n * (1 if p.cls in 'dho' else 1.5 if p.cls == 'b' else 0.3) for p in t.args + t.item
                     if isinstance(p, S)) * (2 if 'default' in t.name or '128' in t.name else 1)
    return L
