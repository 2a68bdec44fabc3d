"""Definitions (the programs under test) and their reference semantics.

A Def describes one #[bitfield] struct.  `rust()` prints it; the z3 functions
give the documented meaning of every generated operation on the N-bit state of
the bitfield, independently of how the macro computes it."""
import z3

INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


def BV(v, n):
    return z3.BitVecVal(v, n)


def ones(n):
    return (1 << n) - 1


def fit(b, n):
    """truncate / zero-extend to n bits"""
    s = b.size()
    if s == n:
        return b
    if s > n:
        return z3.Extract(n - 1, 0, b)
    return z3.ZeroExt(n - s, b)


def sfit(b, n):
    s = b.size()
    if s == n:
        return b
    if s > n:
        return z3.Extract(n - 1, 0, b)
    return z3.SignExt(n - s, b)


def ex(b, off, n):
    return z3.Extract(off + n - 1, off, b)


def bswap(b):
    n = b.size()
    if n == 8:
        return b
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, b) for i in range(n // 8)])


# ------------------------------------------------------------------- types
class Ty:
    """wire: bytes used to pass a value in/out of a harness"""
    kind = ''
    size = None          # natural bit size or None (custom)

    def __repr__(self):
        return self.rust


class IntTy(Ty):
    kind = 'int'

    def __init__(self, name):
        self.rust = name
        self.size = INTS[name]
        self.wire = self.size // 8
        self.signed = name[0] == 'i'

    def build(self, e):
        return '(%s as %s)' % (e, self.rust)

    def dump(self, e):
        return '(%s as u%d)' % (e, self.size)

    def wire_ty(self):
        return 'u%d' % self.size

    def into(self, raw):
        return raw

    def from_(self, bits):
        return sfit(bits, self.size) if self.signed else fit(bits, self.size)

    def fits(self, raw, w):
        if w >= self.size:
            return z3.BoolVal(True)
        low = ex(raw, 0, w)
        return (sfit(low, self.size) if self.signed else fit(low, self.size)) == raw


class BoolTy(Ty):
    kind = 'bool'
    rust = 'bool'
    size = 1
    wire = 1
    signed = False

    def build(self, e):
        return '(%s & 1 != 0)' % e

    def dump(self, e):
        return '(%s as u8)' % e

    def wire_ty(self):
        return 'u8'

    def into(self, raw):
        return ex(raw, 0, 1)

    def from_(self, bits):
        return fit(ex(bits, 0, 1), 8)

    def fits(self, raw, w):
        return z3.BoolVal(True)


class ArrTy(Ty):
    kind = 'array'
    signed = False

    def __init__(self, n):
        self.n = n
        self.rust = '[u8; %d]' % n
        self.size = 8 * n
        self.wire = n

    def build(self, e):
        return e

    def dump(self, e):
        return e

    def wire_ty(self):
        return self.rust

    def into(self, raw):
        return raw

    def from_(self, bits):
        return fit(bits, self.size)

    def fits(self, raw, w):
        if w >= self.size:
            return z3.BoolVal(True)
        return ex(raw, w, self.size - w) == 0


class CustomTy(Ty):
    """kind custom; `key`: value stored is bits ^ key"""
    kind = 'custom'
    signed = False
    lossy = False

    def __init__(self, name, bits, key=0, src=None):
        self.rust = name
        self.bits = bits
        self.key = key
        self.wire = bits // 8
        self.src = src

    def build(self, e):
        return '%s(%s)' % (self.rust, e)

    def dump(self, e):
        return '%s.0' % e

    def wire_ty(self):
        return 'u%d' % self.bits

    def into(self, raw):
        return raw ^ BV(self.key, self.bits) if self.key else raw

    def from_(self, bits):
        b = fit(bits, self.bits)
        return b ^ BV(self.key, self.bits) if self.key else b

    def fits(self, raw, w):
        v = self.into(raw)
        if w >= self.bits:
            return z3.BoolVal(True)
        return ex(v, w, self.bits - w) == 0


class EnumTy(CustomTy):
    """enum with a handwritten conversion; vals: variant -> bits, last is fallback"""
    lossy = True

    def __init__(self, name, bits, variants, fallback):
        super().__init__(name, bits)
        self.variants = variants     # list of ints
        self.fallback = fallback     # index

    def build(self, e):
        arms = ' '.join('%d => %s::V%d,' % (i, self.rust, i) for i in range(len(self.variants)))
        return '(match %s %% %d { %s _ => unreachable!() })' % (e, len(self.variants), arms)

    def dump(self, e):
        return '%s.idx()' % e

    def into(self, raw):
        n = self.bits
        i = z3.URem(raw, BV(len(self.variants), n))
        r = BV(self.variants[-1], n)
        for k in range(len(self.variants) - 2, -1, -1):
            r = z3.If(i == k, BV(self.variants[k], n), r)
        return r

    def from_(self, bits):
        n = self.bits
        b = fit(bits, n)
        r = BV(self.fallback, n)
        for k, v in enumerate(self.variants):
            r = z3.If(b == v, BV(k, n), r)
        return r

    def source(self):
        n = self.bits
        vs = ', '.join('V%d = %d' % (i, v) for i, v in enumerate(self.variants))
        fr = ' '.join('%d => Self::V%d,' % (v, i) for i, v in enumerate(self.variants))
        ix = ' '.join('Self::V%d => %d,' % (i, i) for i in range(len(self.variants)))
        return ('#[derive(Clone, Copy, PartialEq)] #[repr(u%d)] pub enum %s { %s }\n'
                'impl %s { pub const fn from_bits(b: u%d) -> Self { match b { %s _ => Self::V%d } }\n'
                ' pub const fn into_bits(self) -> u%d { self as u%d }\n'
                ' pub const fn idx(self) -> u%d { match self { %s } } }\n') % (
            n, self.rust, vs, self.rust, n, fr, self.fallback, n, n, n, ix)


class FlagTy(CustomTy):
    """#[bitflag] enum"""
    lossy = True

    def __init__(self, name, bits, variants, base, from_e='big', into_e='big', base_attr='#[base]', discr=None,
                 args=''):
        super().__init__(name, bits)
        self.variants = variants
        self.fallback = base
        self.from_e = from_e
        self.into_e = into_e
        self.base_attr = base_attr
        self.args = args

    def build(self, e):
        arms = ' '.join('%d => %s::V%d,' % (i, self.rust, i) for i in range(len(self.variants)))
        return '(match %s %% %d { %s _ => unreachable!() })' % (e, len(self.variants), arms)

    def dump(self, e):
        arms = ' '.join('%s::V%d => %du%d,' % (self.rust, i, i, self.bits) for i in range(len(self.variants)))
        return '(match %s { %s })' % (e, arms)

    def into(self, raw):
        n = self.bits
        i = z3.URem(raw, BV(len(self.variants), n))
        r = BV(self.variants[-1], n)
        for k in range(len(self.variants) - 2, -1, -1):
            r = z3.If(i == k, BV(self.variants[k], n), r)
        return bswap(r) if self.into_e == 'little' else r

    def from_(self, bits):
        n = self.bits
        b = fit(bits, n)
        if self.from_e == 'little':
            b = bswap(b)
        r = BV(self.fallback, n)
        for k, v in enumerate(self.variants):
            r = z3.If(b == v, BV(k, n), r)
        return r

    def source(self):
        n = self.bits
        vs = ', '.join('%sV%d = %d' % ((self.base_attr + ' ') if i == self.fallback else '', i, v)
                       for i, v in enumerate(self.variants))
        a = ''
        if self.from_e != 'big':
            a += ', from_endian = ' + self.from_e
        if self.into_e != 'big':
            a += ', into_endian = ' + self.into_e
        return '#[bitflag(u%d%s%s)]\n#[derive(PartialEq)]\npub enum %s { %s }\n' % (n, a, self.args, self.rust, vs)


class NestTy(CustomTy):
    """a nested bitfield (integer backed)"""

    def __init__(self, name, bits, body, from_e='big', into_e='big', args=''):
        super().__init__(name, bits)
        self.body = body
        self.from_e = from_e
        self.into_e = into_e
        self.args = args

    def into(self, raw):
        return bswap(raw) if self.into_e == 'little' else raw

    def from_(self, bits):
        b = fit(bits, self.bits)
        return bswap(b) if self.from_e == 'little' else b

    def source(self):
        a = self.args
        if self.from_e != 'big':
            a += ', from_endian = ' + self.from_e
        if self.into_e != 'big':
            a += ', into_endian = ' + self.into_e
        return '#[bitfield(u%d%s)]\npub struct %s { %s }\n' % (self.bits, a, self.rust, self.body)


TY = {n: IntTy(n) for n in INTS}
TY['bool'] = BoolTy()


def arr(n):
    k = '[u8; %d]' % n
    if k not in TY:
        TY[k] = ArrTy(n)
    return TY[k]


def _wrap(name, bits, key):
    return ('#[derive(Clone, Copy)] pub struct %s(pub u%d);\n'
            'impl %s { pub const fn from_bits(b: u%d) -> Self { %s(b ^ 0x%x) }\n'
            '  pub const fn into_bits(self) -> u%d { self.0 ^ 0x%x } }\n') % (
        name, bits, name, bits, name, key, bits, key)


CUSTOM = {}


def _reg(t, src):
    TY[t.rust] = t
    CUSTOM[t.rust] = src


for _b in (8, 16, 32, 64, 128):
    _reg(CustomTy('W%d' % _b, _b), _wrap('W%d' % _b, _b, 0))
    _k = 0x5A96A55AC33C69965AA5F00F3CC3A569 & ones(_b)
    _reg(CustomTy('K%d' % _b, _b, _k), _wrap('K%d' % _b, _b, _k))
_e = EnumTy('E2', 8, [0, 1, 2, 3], 0)
_reg(_e, _e.source())
_e = EnumTy('E3L', 8, [5, 1, 6, 2], 2)
_reg(_e, _e.source())
_e = EnumTy('E16', 16, [0, 9, 300, 511], 1)
_reg(_e, _e.source())
_f = FlagTy('F8', 8, [0, 1, 2, 3], 0)
_reg(_f, _f.source())
_f = FlagTy('F8s', 8, [1, 4, 7], 1)
_reg(_f, _f.source())
_f = FlagTy('F16', 16, [0, 0x103, 0x1ff, 7], 3)
_reg(_f, _f.source())
_n = NestTy('N8', 8, 'a: u8')
_reg(_n, _n.source())
_n = NestTy('N16', 16, '#[bits(4)] a: u8, #[bits(7, access = ro)] b: i8, #[bits(5)] _r: u8')
_reg(_n, _n.source())
_n = NestTy('N32', 32, '#[bits(4)] a: u8, #[bits(17, access = wo)] b: u32, #[bits(11, access = na)] c: u16',
            args=', order = msb')
_reg(_n, _n.source())
_n = NestTy('N16L', 16, '#[bits(3)] a: u8, #[bits(13)] b: i16', 'little', 'little')
_reg(_n, _n.source())


class Field:
    def __init__(self, name, ty, bits=None, access=None, default=None, dtext=None, ignore=False, attr=None, pub='',
                 aliases=None):
        self.name = name
        self.ty = TY[ty] if isinstance(ty, str) else ty
        self.explicit = bits is not None
        self.bits = bits if bits is not None else self.ty.size
        self.access = access
        self.default = default       # raw (wire) integer value, or None
        self.dtext = dtext
        self.ignore = ignore
        self.attr = attr
        self.pub = pub
        self.off = None

    @property
    def reserved(self):
        return self.name.startswith('_')

    @property
    def acc(self):
        return self.access or 'rw'

    @property
    def setter(self):
        return not self.reserved and self.acc in ('rw', 'wo')

    @property
    def getter(self):
        return not self.reserved and self.acc in ('rw', 'ro')

    @property
    def hidden(self):
        return not self.reserved and self.acc in ('wo', 'na')

    @property
    def ident(self):
        return self.name[2:] if self.name.startswith('r#') else self.name

    def default_bits(self):
        """field bits of the default, a python int"""
        raw = BV(self.default, 8 * self.ty.wire)
        b = z3.simplify(fit(self.ty.into(raw), self.bits))
        return b.as_long()

    def default_text(self, int_backed):
        if self.dtext is not None:
            return self.dtext
        t = self.ty
        if t.kind == 'int':
            v = self.default
            if t.signed and v >> (t.size - 1):
                return '-%d' % ((1 << t.size) - v)
            return hex(v) if v > 9 else str(v)
        if t.kind == 'bool':
            return 'true' if self.default & 1 else 'false'
        if t.kind == 'array':
            if int_backed:
                return hex(self.default)
            return '[' + ', '.join(hex(self.default >> (8 * i) & 255) for i in range(t.n)) + ']'
        if isinstance(t, (EnumTy, FlagTy)):
            return '%s::V%d' % (t.rust, self.default % len(t.variants))
        # a const item
        return 'D_%s' % self.ident.upper()

    def const_item(self):
        """const item a custom default needs"""
        if self.default is None or self.dtext is not None:
            return ''
        t = self.ty
        if t.kind == 'custom' and not isinstance(t, (EnumTy, FlagTy)):
            return 'const D_%s: %s = %s(%s);\n' % (self.ident.upper(), t.rust, t.rust, hex(self.default))
        return ''

    def rust(self, int_backed):
        a = []
        if self.explicit:
            a.append(str(self.bits))
        if self.default is not None:
            a.append('default = ' + self.default_text(int_backed))
        if self.access:
            a.append('access = ' + self.access)
        if self.ignore:
            a.append('ignore = true')
        s = ''
        if a:
            s += '#[bits(%s)] ' % ', '.join(a)
        return s + '%s%s: %s,' % (self.pub, self.name, self.ty.rust)


class Def:
    crate = None        # which build of the crate under test the definition is compiled with (build.py)

    def __init__(self, name, backing, fields, order='lsb', from_e='big', into_e='big', write_e='big', heap=False,
                 args='', items='', note='', off=()):
        self.off = set(off)
        self.tail = ''
        self.name = name
        self.backing = backing           # 'u32' or int (number of bytes)
        self.allfields = fields
        self.fields = [f for f in fields if not f.ignore]
        self.ignored = [f for f in fields if f.ignore]
        self.order = order
        self.from_e, self.into_e, self.write_e = from_e, into_e, write_e
        self.heap = heap
        self.args = args
        self.items = items
        self.note = note
        self.is_int = isinstance(backing, str)
        self.N = INTS[backing] if self.is_int else 8 * backing
        off = 0
        tot = sum(f.bits for f in self.fields)
        assert tot == self.N, (name, tot, self.N)
        for f in self.fields:
            f.off = off if order == 'lsb' else self.N - off - f.bits
            off += f.bits

    # ------------------------------------------------------------- printing
    @property
    def bty(self):
        return self.backing if self.is_int else '[u8; %d]' % self.backing

    @property
    def nbytes(self):
        return self.N // 8

    @property
    def bob(self):
        return 'bits' if self.is_int else 'bytes'

    def settings(self):
        """the attribute arguments that follow the backing type"""
        a = []
        if self.order != 'lsb':
            a.append('order = ' + self.order)
        for k, v in (('from_endian', self.from_e), ('into_endian', self.into_e), ('write_endian', self.write_e)):
            if v != 'big':
                a.append('%s = %s' % (k, v))
        if self.heap:
            a.append('array_heap = true')
        if self.args:
            a.append(self.args)
        return a

    def rust(self):
        a = [self.bty] + self.settings()
        body = '\n    '.join(f.rust(self.is_int) for f in self.allfields)
        consts = ''.join(f.const_item() for f in self.fields)
        return '%s%s#[bitfield(%s)]\npub struct X {\n    %s\n}\n%s' % (self.items, consts, ', '.join(a), body,
                                                                       self.tail)

    def mk(self, st, ign=None):
        """Rust expression constructing the bitfield from its backing value"""
        v = 'Box::new(%s)' % st if self.heap else st
        if self.ignored:
            ign = ign or {}
            return 'X { val: %s, %s }' % (v, ', '.join(
                '%s: %s' % (f.name, ign.get(f.name, 'Default::default()')) for f in self.ignored))
        return 'X(%s)' % v

    def raw(self, x='x'):
        e = x + ('.val' if self.ignored else '.0')
        return '(*%s)' % e if self.heap else e

    # ------------------------------------------------------------ semantics
    def get_bits(self, S, f):
        return ex(S, f.off, f.bits)

    def get(self, S, f):
        return f.ty.from_(self.get_bits(S, f))

    def put_bits(self, S, f, b):
        b = fit(b, f.bits)
        parts = []
        hi = self.N - f.off - f.bits
        if hi:
            parts.append(ex(S, f.off + f.bits, hi))
        parts.append(b)
        if f.off:
            parts.append(ex(S, 0, f.off))
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def set(self, S, f, raw):
        v = f.ty.into(raw)
        return self.put_bits(S, f, sfit(v, f.bits) if f.ty.signed else fit(v, f.bits))

    def mask(self, pred):
        m = 0
        for f in self.fields:
            if pred(f):
                m |= ones(f.bits) << f.off
        return m

    def norm(self, S, pred=lambda f: True):
        """custom fields are stored through their own conversion"""
        for f in self.fields:
            if f.ty.kind == 'custom' and pred(f):
                S = self.put_bits(S, f, f.ty.into(f.ty.from_(self.get_bits(S, f))))
        return S

    def defaults(self, S, pred=lambda f: True):
        for f in self.fields:
            if f.default is not None and pred(f):
                S = self.put_bits(S, f, BV(f.default_bits(), f.bits))
        return S

    def zero_bits(self, f):
        """the field bits of a zeroed field (through the conversion of a custom type)"""
        if f.ty.kind == 'custom':
            return f.ty.into(f.ty.from_(BV(0, f.bits)))
        return BV(0, f.bits)

    def zero(self):
        S = BV(0, self.N)
        for f in self.fields:
            if f.ty.kind == 'custom':
                S = self.put_bits(S, f, self.zero_bits(f))
        return S

    def new(self):
        return self.defaults(self.zero())

    def new_without_defaults(self):
        return self.defaults(self.zero(), lambda f: f.reserved)

    def from_data(self, x, endian):
        """backing value handed to from_* -> raw state"""
        if self.is_int:
            return bswap(x) if endian == 'little' else x
        return bswap(x) if endian == 'big' else x

    into_data = from_data

    def write_data(self, x, endian):
        # NB array backed write_* order is the one the existing tests pin
        # (see DESIGN.md, "array write order")
        return bswap(x) if endian == 'little' else x
