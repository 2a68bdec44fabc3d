"""More catalogues: non-interference, bitflags, Debug, configuration switches,
relational (two definitions at once)."""
import re

from . import symex
from .harness import H
from .model import *
from . import ops
from .ops import mkH, mutator, eqst, HID, W, B1

# ------------------------------------------------------- read protection
def hidden_ops(d):
    """two states that differ only in bits of fields without read access look
    the same through every reading operation"""
    L = []
    hid = HID(d)
    if not hid:
        return L
    b = d.bob

    def two(op, args, outs, split=None):
        h = mkH(d, op, 'nonint')
        h.inp('sa', d.nbytes, d.bty)
        h.inp('sb', d.nbytes, d.bty)
        for a in args:
            h.inp(*a)
        h.line('let xa = %s;' % d.mk('sa'))
        h.line('let xb = %s;' % d.mk('sb'))
        names = []
        for (nm, nbytes, expr) in outs:
            h.out(nm + 'a', nbytes, expr('xa'))
            h.out(nm + 'b', nbytes, expr('xb'))
            names.append(nm)
        h.pre = lambda I: ((I['sa'] ^ I['sb']) & BV(ones(d.N) & ~hid, d.N)) == 0
        h.checks = lambda I, O: [('%s does not depend on hidden bits' % n, O[n + 'a'] == O[n + 'b']) for n in names]
        h.unset = True
        L.append(h)
        return h

    for f in d.fields:
        if f.getter:
            o = [('g', f.ty.wire, lambda x, f=f: f.ty.dump('%s.%s()' % (x, f.name)))]
            if 'invert' not in d.off:
                o.append(('i', f.ty.wire, lambda x, f=f: f.ty.dump('%s.%s_inverted()' % (x, f.ident))))
            two('get %s' % f.ident, [], o)
    if 'setget' in d.off:
        return L
    two('get_bit', [('off', 4, 'u32')], [('g', 1, lambda x: '%s.get_bit(off) as u8' % x)])
    two('checked_get_bit', [('off', 4, 'u32')],
        [('g', 1, lambda x: 'match %s.checked_get_bit(off) { Ok(v) => v as u8, Err(_) => 2u8 }' % x)])
    A = [('off', 4, 'u32'), ('ln', 4, 'u32')]
    zero = '[0u8; %d]' % d.nbytes if not d.is_int else '0'
    rs = [two('get_%s_range' % b, A, [('g', d.nbytes, lambda x: '%s.get_%s_range(off, ln)' % (x, b))]),
          two('checked_get_%s_range' % b, A, [
              ('k', 1, lambda x: '%s.checked_get_%s_range(off, ln).is_ok() as u8' % (x, b)),
              ('g', d.nbytes, lambda x: '%s.checked_get_%s_range(off, ln).unwrap_or(%s)' % (x, b, zero))])]
    # hidden bits never show in what a range read returns
    h = mkH(d, 'hidden bits read 0 in get_%s_range' % b, 'nonint')
    h.state(mut=False)
    for a in A:
        h.inp(*a)
    h.out('g', d.nbytes, 'x.get_%s_range(off, ln)' % b)

    def ck(I, O):
        s = ops._sh(d, I['off'])
        m = z3.LShR(BV(hid, d.N), s)
        inr = z3.ULT(I['off'], BV(d.N, 32))
        return [('hidden bits are 0', z3.Implies(inr, (O['g'] & m) == 0)),
                ('nothing past the end', z3.Implies(z3.Not(inr), O['g'] == 0))]
    h.checks = ck
    L.append(h)
    rs.append(h)
    if not d.is_int:
        for h in rs:
            ops.split_offsets(d, h, 0)
    return L


# ------------------------------------------------------ write protection
def protect_ops(d):
    """bits of ro / na / reserved fields survive every ordinary mutator"""
    base = [h for h in ops.field_ops(d) if h.tags & {'set', 'checked_set'}] + \
        [h for h in ops.bit_ops(d) + ops.range_ops(d, full_offsets=0) + ops.write_ops(d) + ops.clear_ops(d) +
         ops.invert_ops(d) if 'wprot' in h.tags and 'write_def' not in h.tags]
    P = ones(d.N) & ~W(d)
    L = []
    if not P:
        return L
    for h in base:
        h.tags.add('protect')

        def ck(I, O, h=h):
            m = P
            f0 = getattr(h, 'field', None)
            if f0 is not None:
                m = ones(d.N) & ~(ones(f0.bits) << f0.off)
            out = []
            for f in d.fields:
                # bits that are no value of the custom type may be normalised by its own
                # conversion; the value it denotes must not change
                if ops.is_lossy(d, f) and f is not f0 and m >> f.off & 1:
                    m &= ~(ones(f.bits) << f.off)
                    out.append(('value of field %s is unchanged' % f.name,
                                d.get(O['post'], f) == d.get(I['st'], f)))
            out.append(('protected bits are unchanged' if f0 is None else 'only the bits of the field change',
                        ((O['post'] ^ I['st']) & BV(m, d.N)) == 0))
            return out
        h.checks = ck
        L.append(h)
    # a checked operation that reports success did not touch a protected bit either,
    # one that targets a protected bit reports an error and changes nothing
    return L


# ---------------------------------------------------------- panic freedom
def panic_ops(d, tier):
    L = ops.field_ops(d) + ops.new_ops(d) + ops.from_ops(d) + ops.into_ops(d) + ops.slice_ops(d, extra=9) + \
        ops.bit_ops(d) + ops.range_ops(d, full_offsets=0 if tier == 'quick' else 40) + ops.write_ops(d) + \
        ops.clear_ops(d) + ops.invert_ops(d) + ops.builder_ops(d)
    L = [h for h in L if 'setget' not in h.tags]
    for h in L:
        h.checks = lambda I, O: []
    return L


# --------------------------------------------------------------- bitflags
class FlagDef:
    """a stand-alone #[bitflag] enum as a definition"""
    crate = None
    is_int = True
    heap = False
    ignored = ()
    fields = ()
    allfields = ()

    def __init__(self, name, bits, variants, base, from_e='big', into_e='big', attr='base', texts=None, items='',
                 copy=True, also_default=None):
        self.name = name
        self.N = bits
        self.variants = variants
        self.base = base
        self.from_e, self.into_e = from_e, into_e
        self.attr = attr
        self.texts = texts or [str(v) for v in variants]
        self.items = items
        self.copy = copy
        self.also_default = also_default
        self.off = set()

    def rust(self):
        a = 'u%d' % self.N
        if self.from_e != 'big':
            a += ', from_endian = ' + self.from_e
        if self.into_e != 'big':
            a += ', into_endian = ' + self.into_e
        if not self.copy:
            a += ', copy = false'
        vs = []
        need_default = self.attr == 'default' or self.also_default is not None
        for i, t in enumerate(self.texts):
            p = ''
            if i == self.base:
                p = '#[%s] ' % self.attr
            if i == self.also_default:
                p += '#[default] '
            vs.append('%sV%d = %s' % (p, i, t))
        return '%s#[bitflag(%s)]\n%spub enum X { %s }\n' % (
            self.items, a, '#[derive(Default)]\n' if need_default else '', ', '.join(vs))

    def build(self, e):
        arms = ' '.join('%d => X::V%d,' % (i, i) for i in range(len(self.variants)))
        return '(match %s %% %d { %s _ => unreachable!() })' % (e, len(self.variants), arms)

    def dump(self, e):
        arms = ' '.join('X::V%d => %du16,' % (i, i) for i in range(len(self.variants)))
        return '(match %s { %s })' % (e, arms)

    def from_(self, v):
        b = bswap(v) if self.from_e == 'little' else v
        r = BV(self.base, 16)
        for k, x in enumerate(self.variants):
            r = z3.If(b == BV(x, self.N), BV(k, 16), r)
        return r

    def into(self, idx):
        r = BV(self.variants[-1], self.N)
        for k in range(len(self.variants) - 2, -1, -1):
            r = z3.If(idx == k, BV(self.variants[k], self.N), r)
        return bswap(r) if self.into_e == 'little' else r


def flag_corpus(tier, seed):
    import random
    L = []
    for n in (8, 16, 32, 64, 128):
        top = ones(n)
        L.append(FlagDef('bf_u%d' % n, n, [0, 1, 2, 3], 0))
        L.append(FlagDef('bf_u%d_big' % n, n, [1, top, 1 << (n - 1), 5, 0x7f], 2))
        for fe, ie in (('little', 'big'), ('big', 'little'), ('little', 'little')):
            L.append(FlagDef('bf_u%d_%s%s' % (n, fe[0], ie[0]), n, [3, 1 << (n - 2), top - 1, 0x42], 1, fe, ie))
    L.append(FlagDef('bf_default', 8, [7, 9, 200], 2, attr='default'))
    L.append(FlagDef('bf_both', 8, [7, 9, 200], 1, also_default=2))
    L.append(FlagDef('bf_both_first', 16, [0x7000, 9, 200], 2, also_default=0))
    L.append(FlagDef('bf_lit', 32, [0x10, 5, 8, 255, 1000000], 3,
                     texts=['0x10', '0b101', '0o10', '0xFFu32', '1_000_000']))
    L.append(FlagDef('bf_path', 8, [3, 4, 0x81], 0, texts=['C_A', '4', 'm::C_B'],
                     items='const C_A: u8 = 3; mod m { pub const C_B: u8 = 0x81; }\n'))
    L.append(FlagDef('bf_one', 8, [9], 0))
    L.append(FlagDef('bf_all', 8, list(range(255, -1, -1))[:40], 17))
    L.append(FlagDef('bf_nocopy', 16, [3, 700, 9], 1, copy=False))
    rng = random.Random(77 + (seed if tier == 'thorough' else 1))
    for i in range(12 if tier == 'quick' else 120):
        n = rng.choice([8, 16, 32, 64, 128])
        k = rng.randint(1, 12)
        vs = list(dict.fromkeys(rng.choice([rng.getrandbits(n), rng.randint(0, 20), ones(n) - rng.randint(0, 9)])
                                for _ in range(k)))
        L.append(FlagDef('bfr%d' % i, n, vs, rng.randrange(len(vs)), rng.choice(['big', 'little']),
                         rng.choice(['big', 'little']), attr=rng.choice(['base', 'base', 'default'])))
    return L


def flag_ops(d):
    L = []
    n = len(d.variants)
    wt = 'u%d' % d.N
    h = mkH(d, 'bitflag from_bits', 'flag')
    h.inp('v', d.N // 8, wt)
    h.out('i', 2, d.dump('X::from_bits(v)'))
    h.checks = lambda I, O: [('the variant with these bits, else the base variant', O['i'] == d.from_(I['v']))]
    L.append(h)
    h = mkH(d, 'bitflag into_bits', 'flag')
    h.inp('k', 2, 'u16')
    h.out('r', d.N // 8, '%s.into_bits()' % d.build('k'))
    h.pre = lambda I: z3.ULT(I['k'], n)
    h.checks = lambda I, O: [('the declared value', O['r'] == d.into(I['k']))]
    L.append(h)
    h = mkH(d, 'bitflag into_bits/from_bits', 'flag')
    h.inp('k', 2, 'u16')
    sw = '.swap_bytes()' if d.from_e != d.into_e else ''
    h.out('i', 2, d.dump('X::from_bits(%s.into_bits()%s)' % (d.build('k'), sw)))
    h.pre = lambda I: z3.ULT(I['k'], n)
    h.checks = lambda I, O: [('every variant survives the round trip', O['i'] == I['k'])]
    L.append(h)
    h = mkH(d, 'bitflag from_bits/into_bits', 'flag')
    h.inp('v', d.N // 8, wt)
    h.out('r', d.N // 8, 'X::from_bits(v).into_bits()')

    def ck(I, O):
        v = bswap(I['v']) if d.from_e != d.into_e else I['v']
        base = d.into(BV(d.base, 16))
        f = bswap(I['v']) if d.from_e == 'little' else I['v']
        known = z3.Or(*[f == BV(x, d.N) for x in d.variants])
        return [('declared bits survive', z3.Implies(known, O['r'] == v)),
                ('other bits become the base', z3.Implies(z3.Not(known), O['r'] == base))]
    h.checks = ck
    L.append(h)
    if d.copy:
        h = mkH(d, 'bitflag copy', 'flag')
        h.inp('k', 2, 'u16')
        h.line('let a = %s; let b = a; let c = a.clone(); fn c2<T: Clone + Copy>(_: &T) {} c2(&a);' % d.build('k'))
        for v in 'abc':
            h.out(v, 2, d.dump(v))
        h.pre = lambda I: z3.ULT(I['k'], n)
        h.checks = lambda I, O: [('a copy is the same variant', z3.And(*[O[v] == I['k'] for v in 'abc']))]
        L.append(h)
    # usable in constants: rustc evaluates the same function
    h = mkH(d, 'bitflag const', 'flag')
    k = d.variants[n // 2]
    if d.from_e == 'little':
        k = int.from_bytes(k.to_bytes(d.N // 8, 'big'), 'little')
    h.line('const K: X = X::from_bits(0x%x);' % k)
    h.line('const R: u%d = K.into_bits();' % d.N if d.copy else 'const R: u%d = X::from_bits(0x%x).into_bits();' % (d.N, k))
    h.out('i', 2, d.dump('K'))
    h.out('r', d.N // 8, 'R')
    h.checks = lambda I, O: [('constant evaluation agrees', O['i'] == n // 2),
                             ('constant evaluation agrees', O['r'] == d.into(BV(n // 2, 16)))]
    L.append(h)
    if d.attr == 'default' or d.also_default is not None:
        h = mkH(d, 'bitflag Default', 'flag')
        h.out('i', 2, d.dump('<X as Default>::default()'))
        e = d.also_default if d.also_default is not None else d.base
        h.checks = lambda I, O: [('#[default] still drives Default', O['i'] == e)]
        L.append(h)
    return L


# ------------------------------------------------------------------ Debug
PRIM = {'a': ('i', 8), 's': ('i', 16), 'l': ('i', 32), 'x': ('i', 64), 'n': ('i', 128),
        'h': ('u', 8), 't': ('u', 16), 'm': ('u', 32), 'y': ('u', 64), 'o': ('u', 128), 'b': ('bool', 8)}


def prim_of(name):
    """the primitive type a mangled `<T as Debug>::fmt` symbol belongs to"""
    m = re.search(r'3fmt3num([a-z])Nt\w*5Debug3fmt$', name)
    if m:
        return PRIM.get(m.group(1))
    m = re.search(r'4core3fmt([b])Nt\w*5Debug3fmt$', name)
    if m:
        return PRIM[m.group(1)]
    m = re.search(r'for\$u20\$([iu]\d+|bool)\$GT\$', name)
    if m:
        t = m.group(1)
        return ('bool', 8) if t == 'bool' else (t[0], int(t[1:]))
    if re.search(r'Ah?[jm]?[0-9a-f]*_?\w*5Debug3fmt', name) or '5array' in name or '$u5b$' in name:
        return ('arr', None)
    return None


def debug_stubs():
    def mem_bytes(exe, s, p, n):
        cells = exe.cells_of(s, p.obj)
        out = bytearray()
        for i in range(n):
            v = exe.get(cells, p.off + i, ('i', 8))
            if not isinstance(v, int):
                raise symex.Unsupported('Debug name is not constant')
            out.append(v)
        return bytes(out)

    def conc(v):
        if not isinstance(v, int):
            raise symex.Unsupported('Debug argument is not constant')
        return v

    def debug_struct(exe, name, rt, vals, s):
        # sret pointer, formatter, name, len
        if len(vals) == 4:
            slot, _, p, n = vals
            exe.store(s, ('i', 64), 0, slot)
        else:
            _, p, n = vals
        s.log = s.log + [('struct', mem_bytes(exe, s, p, conc(n)).decode())]
        return None

    def field(exe, name, rt, vals, s):
        self_, p, n, vp, vt = vals
        cells = exe.cells_of(s, vt.obj)
        fn = exe.get(cells, vt.off + 24, symex.PTR)
        size = exe.get(cells, vt.off + 8, ('i', 64))
        if not isinstance(fn, symex.FnPtr):
            raise symex.Unsupported('Debug vtable')
        size = conc(size)
        v = to_bv(exe.load(s, ('i', 8 * size), vp), 8 * size)
        s.log = s.log + [('field', mem_bytes(exe, s, p, conc(n)).decode(), fn.name, v)]
        return self_

    def finish(exe, name, rt, vals, s):
        s.log = s.log + [('finish',)]
        return 0
    to_bv = symex.to_bv
    return {'Formatter12debug_struct': debug_struct, 'DebugStruct5field': field, 'DebugStruct6finish': finish}


def debug_ops(d):
    L = []
    if 'debug' in d.off:
        return L
    h = mkH(d, 'Debug', 'debug')
    h.state(mut=False)
    cap = 64 + sum(len(f.name) + 60 + (f.bits // 8) * 6 for f in d.fields)
    h.osz = cap + 2
    h.outs = []
    h.body.append('#[cfg(not(bfv_native))] { let f: &mut ::core::fmt::Formatter = ::core::mem::transmute::<*mut u8, _>(o); '
                  'let _ = ::core::fmt::Debug::fmt(&x, f); }')
    h.body.append('#[cfg(bfv_native)] { let s = ::std::format!("{:?}", x); let b = s.as_bytes(); '
                  'wr(o, 0, b.len() as u16); let mut k = 0; while k < b.len() && k < %d { wr(o, 2 + k, b[k]); k += 1; } }'
                  % cap)
    h.sym_stub = debug_stubs

    def value_of(S, f):
        """(bits, signed) of the printed integer"""
        b = d.get_bits(S, f)
        return b

    def ck(I, O):
        log = O['__log']
        S = I['st']
        out = []
        ok = len(log) == len(d.fields) + 2 and log[0] == ('struct', 'X') and log[-1] == ('finish',) and \
            all(e[0] == 'field' for e in log[1:-1])
        out.append(('prints every field once, in order', z3.BoolVal(ok)))
        if not ok:
            return out
        for f, e in zip(d.fields, log[1:-1]):
            out.append(('field %s printed under its name' % f.name, z3.BoolVal(e[1] in (f.name, f.ident))))
            p = prim_of(e[2])
            v = e[3]
            b = d.get_bits(S, f)
            if p is None:
                raise symex.Unsupported('Debug of a value through ' + e[2])
            if p[0] == 'arr':
                n = max(v.size(), f.bits)
                c = fit(v, n) == fit(b, n)
            elif p[0] == 'bool':
                c = z3.And(z3.BoolVal(f.bits == 1), ex(v, 0, 1) == b)
            else:
                # printed integer == the value of the field
                n = max(v.size(), f.bits) + 1
                pv = sfit(v, n) if p[0] == 'i' else fit(v, n)
                ev = sfit(b, n) if f.ty.signed else fit(b, n)
                c = pv == ev
            out.append(('field %s printed with its value' % f.name, c))
        return out
    h.checks = ck

    def native(I, text):
        """check the real text"""
        S = I['st']
        bad = []
        rest = text
        if not rest.startswith('X { ') or not rest.endswith(' }'):
            return ['text is not `X { .. }`: ' + text]
        rest = rest[4:-2]
        for i, f in enumerate(d.fields):
            v = z3.simplify(d.get_bits(S, f)).as_long()
            sv = v - (1 << f.bits) if f.ty.signed and v >> (f.bits - 1) else v
            forms = [str(sv)]
            if f.bits == 1:
                forms.append('true' if v else 'false')
            if f.ty.kind == 'array':
                forms.append('[' + ', '.join(str(v >> (8 * k) & 255) for k in range(f.ty.n)) + ']')
            sep = '' if i == len(d.fields) - 1 else ', '
            for nm in (f.name, f.ident):
                hit = [x for x in forms if rest.startswith('%s: %s%s' % (nm, x, sep)) and
                       (sep or rest == '%s: %s' % (nm, x))]
                if hit:
                    rest = rest[len('%s: %s%s' % (nm, hit[0], sep)):]
                    break
            else:
                bad.append('Debug text: expected %s: %s at `%s` of `%s`' % (f.name, forms[0], rest[:60], text))
                return bad
        if rest:
            bad.append('Debug text goes on: ' + rest[:60])
        return bad
    h.native = native
    L.append(h)
    return L


# ------------------------------------------------------------ relational
class Pair:
    """two definitions of the same schema side by side (modules p and q)"""
    crate = None
    heap = False

    def __init__(self, name, a, b, same):
        self.name = name
        self.a, self.b = a, b
        self.N = a.N
        self.is_int = a.is_int and b.is_int
        self.fields = a.fields
        self.allfields = a.allfields
        self.ignored = a.ignored
        self.off = set()
        self.same = same

    def rust(self):
        return ('mod p { use super::*; %s\n pub unsafe fn mk(st: %s) -> X { %s } pub fn raw(x: &X) -> %s { %s } }\n'
                'mod q { use super::*; %s\n pub unsafe fn mk(st: %s) -> X { %s } pub fn raw(x: &X) -> %s { %s } }\n') % (
            self.a.rust(), self.a.bty, self.a.mk('st'), self.a.bty, self.a.raw(),
            self.b.rust(), self.b.bty, self.b.mk('st'), self.b.bty, self.b.raw())


def pair_ops(p):
    """observing the two definitions through the same operations gives the same"""
    L = []
    a, b = p.a, p.b

    def two(op, args, body, outs, split=False):
        h = mkH(p, op, 'pair')
        h.inp('sp', a.nbytes, a.bty)
        h.line('let sq: %s = %s;' % (b.bty, 'sp' if a.is_int == b.is_int else
                                     'sp.to_le_bytes()' if a.is_int else '%s::from_le_bytes(sp)' % b.bty))
        for x in args:
            if isinstance(x, tuple):
                h.inp(*x)
            else:
                h.val('v', x)
        for m in 'pq':
            h.line('let mut x%s = %s::mk(s%s);' % (m, m, m))
            if body:
                h.line(body('x' + m, m, a if m == 'p' else b) + ';')
        names = []
        for nm, nbytes, expr in outs:
            for m in 'pq':
                h.out(nm + m, nbytes, expr('x' + m, m, a if m == 'p' else b))
            names.append(nm)
        h.checks = lambda I, O: [('%s is the same' % nm, O[nm + 'p'] == O[nm + 'q']) for nm in names]
        L.append(h)
        return h
    RAW = ('st', a.nbytes, lambda x, m, d: '%s::raw(&%s)' % (m, x))
    fq = {f.name: f for f in b.fields if not f.reserved}
    for f in a.fields:
        if f.reserved:
            continue
        if f.getter:
            o = [('g', f.ty.wire, lambda x, m, d, f=f: f.ty.dump('%s.%s()' % (x, f.name))),
                 ('i', f.ty.wire, lambda x, m, d, f=f: f.ty.dump('%s.%s_inverted()' % (x, f.ident)))]
            two('get %s' % f.ident, [], None, o)
        if f.setter and f.getter:      # setters of write-only fields are private to the module
            for call in ('set_%s(v)', 'clear_%s()', 'invert_%s()'):
                two(call % f.ident, [f.ty], lambda x, m, d, f=f, call=call: '%s.%s' % (x, call % f.ident), [RAW])
            two('checked_set_%s' % f.ident, [f.ty], None,
                [('k', 1, lambda x, m, d, f=f: '%s.checked_set_%s(v).is_ok() as u8' % (x, f.ident)), RAW])
    for op in ('clear_%s()', 'clear_%s_with_defaults()', 'invert_%s()', 'write_defaults()'):
        two(op.replace('%s', 'bits'), [], lambda x, m, d, op=op: '%s.%s' % (x, op % d.bob if '%s' in op else op), [RAW])
    A = [('off', 4, 'u32'), ('bb', 1, 'u8')]
    two('set_bit', A, lambda x, m, d: '%s.set_bit(off, bb & 1 != 0)' % x, [RAW])
    two('checked_set_bit', A, None,
        [('k', 1, lambda x, m, d: '%s.checked_set_bit(off, bb & 1 != 0).is_ok() as u8' % x), RAW])
    two('get_bit', A, None, [('g', 1, lambda x, m, d: '%s.get_bit(off) as u8' % x),
                             ('k', 1, lambda x, m, d: 'match %s.checked_get_bit(off) { Ok(v) => v as u8, Err(_) => 2u8 }'
                              % x)])
    for c in ('new()', 'new_without_defaults()'):
        two(c, [], lambda x, m, d, c=c: '%s = %s::X::%s' % (x, m, c), [RAW])
    fs = [f for f in a.fields if f.setter and f.getter]
    if fs:
        f = fs[0]
        two('builder', [f.ty], lambda x, m, d: '%s = %s::XBuilder::new().with_%s(v).build()' % (x, m, f.ident), [RAW])
    for wd in ('', '_with_defaults'):
        # the conversions that take the raw state: big-endian integers, little-endian bytes
        two('from raw' + wd, [], lambda x, m, d, wd=wd: '%s = %s::X::from_%s_%s%s(s%s)' % (
            x, m, 'be' if d.is_int else 'le', d.bob, wd, m), [RAW])
    R = [('off', 4, 'u32'), ('ln', 4, 'u32')]
    rs = [two('get range', R, None, [('g', a.nbytes, lambda x, m, d: '%s.get_%s_range(off, ln)' % (x, d.bob)),
                                     ('k', 1, lambda x, m, d: '%s.checked_get_%s_range(off, ln).is_ok() as u8' % (
                                         x, d.bob))])]

    def valof(d):
        return 'vv' if d.is_int == a.is_int else 'vv.to_le_bytes()' if a.is_int else '%s::from_le_bytes(vv)' % d.bty
    V = R + [('vv', a.nbytes, a.bty)]
    rs.append(two('set range', V, lambda x, m, d: '%s.set_%s_range(off, ln, %s)' % (x, d.bob, valof(d)), [RAW]))
    rs.append(two('checked set range', V, None,
                  [('k', 1, lambda x, m, d: '%s.checked_set_%s_range(off, ln, %s).is_ok() as u8' % (
                      x, d.bob, valof(d))), RAW]))
    if not (a.is_int and b.is_int):
        for h in rs:
            # an empty range: only the absence of a difference between the two is not promised
            ops.split_offsets(a if not a.is_int else b, h, 0)
    for h in rs:
        h.pre = (lambda o: lambda I: z3.And(I['ln'] != 0, o(I)) if o else I['ln'] != 0)(h.pre)
    return L


def clone_fields(fs):
    return [Field(f.name, f.ty, f.bits if f.explicit else None, f.access, f.default, f.dtext, f.ignore, f.attr, f.pub)
            for f in fs]


def pair_corpus(tier, seed):
    import random
    from . import corpus
    L = []
    rng = random.Random(4242 + seed * (tier == 'thorough'))
    base = []
    for b in ('u8', 'u16', 'u32', 'u64', 'u128'):
        for i in range(3 if tier == 'quick' else 20):
            base.append(corpus.rand_def(rng, 'pr_%s_%d' % (b, i), backing=b))
    core = [d for d in corpus.core() if d.is_int and not d.args and not d.off and not d.ignored and not d.items]
    base += core[::4] if tier == 'quick' else core
    for d in base:
        if d.ignored or not any(f.setter or f.getter for f in d.fields):
            continue
        d.from_e = d.into_e = d.write_e = 'big'
        arr_def = Def(d.name + '_a', d.N // 8, clone_fields(d.allfields), order=d.order)
        L.append(Pair(d.name + ':int/array', d, arr_def, 'int/array'))
        rev = Def(d.name + '_r', d.backing, clone_fields(list(reversed(d.allfields))),
                  order='msb' if d.order == 'lsb' else 'lsb')
        L.append(Pair(d.name + ':order', d, rev, 'order'))
    for n in (2, 5, 9, 16, 18):
        d = corpus.rand_def(rng, 'ph_%d' % n, backing=n, heap=False)
        if d.ignored:
            continue
        L.append(Pair(d.name + ':heap', d, Def(d.name + '_h', n, clone_fields(d.allfields), order=d.order, heap=True,
                                               from_e=d.from_e, into_e=d.into_e, write_e=d.write_e), 'heap'))
        rev = Def(d.name + '_r', n, clone_fields(list(reversed(d.allfields))),
                  order='msb' if d.order == 'lsb' else 'lsb')
        L.append(Pair(d.name + ':order', d, rev, 'order'))
    return L


# ------------------------------------------------- custom and nested types
# sub-fields of the nested types: (getter, setter or None, offset, bits, wire type)
NEST = {
    'N8': [('a', 'set_a', 0, 8, 'u8')],
    'N16': [('a', 'set_a', 0, 4, 'u8'), ('b', None, 4, 7, 'i8')],
    'N32': [('a', 'set_a', 28, 4, 'u8')],
    'N16L': [('a', 'set_a', 0, 3, 'u8'), ('b', 'set_b', 3, 13, 'i16')],
}


def nested_ops(d):
    L = []
    for f in d.fields:
        if not isinstance(f.ty, NestTy) or f.bits != f.ty.bits:
            continue
        for g, st, off, bits, wt in NEST.get(f.ty.rust, []):
            t = TY[wt]
            if f.getter:
                h = mkH(d, 'nested get %s.%s' % (f.ident, g), 'nested')
                h.state(mut=False)
                h.out('g', t.wire, t.dump('x.%s().%s()' % (f.name, g)))

                def ck(I, O, f=f, off=off, bits=bits, t=t):
                    inner = f.ty.from_(d.get_bits(I['st'], f))
                    return [('inner field of the nested bitfield', O['g'] == t.from_(ex(inner, off, bits)))]
                h.checks = ck
                L.append(h)
            if f.getter and f.setter and st:
                h = mkH(d, 'nested update %s.%s' % (f.ident, g), 'nested')
                h.state()
                h.val('v', t)
                h.line('let mut n = x.%s(); n.%s(v); x.set_%s(n);' % (f.name, st, f.ident))
                h.out_state()

                def ck(I, O, f=f, off=off, bits=bits, t=t):
                    inner = f.ty.from_(d.get_bits(I['st'], f))
                    n = f.ty.bits
                    m = ones(bits) << off
                    inner = (inner & BV(ones(n) & ~m, n)) | ((fit(sfit(I['v_w'], max(n, t.size)), n) << off) & BV(m, n))
                    return eqst(d, O['post'], d.put_bits(I['st'], f, f.ty.into(inner)), 'state')
                h.checks = ck
                L.append(h)
    return L


def custom_ops(d, tier):
    if not any(f.ty.kind == 'custom' for f in d.fields):
        return []
    L = []
    for f in d.fields:
        if f.ty.kind == 'custom' and f.getter and f.setter:
            # the conversion functions of the type are applied exactly once on the way in and out
            h = mkH(d, 'custom round trip %s' % f.ident, 'custom')
            h.state()
            h.val('v', f.ty)
            h.line('x.set_%s(v);' % f.ident)
            h.out('g', f.ty.wire, f.ty.dump('x.%s()' % f.name))
            h.out_state()

            def ck(I, O, f=f):
                bits = fit(f.ty.into(I['v_w']), f.bits)
                return [('reads from_bits(into_bits(v) cut to the width)', O['g'] == f.ty.from_(bits)),
                        ('other bits unchanged', ((O['post'] ^ I['st']) & BV(ones(d.N) & ~(ones(f.bits) << f.off), d.N)) == 0)]
            h.checks = ck
            L.append(h)
    L += nested_ops(d)
    for h in ops.field_ops(d) + ops.builder_ops(d):
        if 'ty:custom' in h.tags or 'chain' in h.tags:
            L.append(h)
    L += ops.new_ops(d) + [h for h in ops.from_ops(d) + ops.write_ops(d) + ops.clear_ops(d) + ops.invert_ops(d)]
    return L


# --------------------------------------------------------- ignored fields
def ignored_ops(d, tier):
    """every operation, checked for what it does to ignored fields and that it
    works the same on the rest"""
    if not d.ignored:
        return []
    L = ops.field_ops(d) + ops.new_ops(d) + ops.from_ops(d) + ops.into_ops(d) + ops.bit_ops(d) + ops.write_ops(d) + \
        ops.clear_ops(d) + ops.invert_ops(d) + ops.builder_ops(d) + \
        ops.range_ops(d, full_offsets=0 if tier == 'quick' else 24) + debug_ops(d) + ops.const_ops(d)
    # an ignored field stays an ordinary field: assigning it never touches the bits
    for g in d.ignored:
        h = mkH(d, 'assign ignored %s' % g.ident, 'ignored')
        h.state()
        h.val('v', g.ty)
        h.line('x.%s = v;' % g.name)
        h.out_state()
        h.out_ign()
        if 'from_into' not in d.off:
            h.out('r', d.nbytes, 'x.into_%s()' % d.bob)

        def ck(I, O, g=g):
            out = [('bits unchanged', O['post'] == I['st']),
                   ('holds the assigned value', O['oig_' + g.ident] == g.ty.from_(g.ty.into(I['v_w'])))]
            if 'r' in O:
                out.append(('exported bits do not contain it', O['r'] == d.into_data(I['st'], d.into_e)))
            return out
        h.checks = ck
        L.append(h)
    return L


# -------------------------------------------------- configuration switches
GROUPS = ('new', 'from_into_bits', 'from_traits', 'default', 'debug', 'builder', 'write_bit_ops', 'clear_bit_ops',
          'set_get_bit_ops', 'invert_bit_ops', 'copy')
OFFKEY = {'new': 'new', 'from_into_bits': 'from_into', 'from_traits': 'from_traits', 'default': 'default',
          'debug': 'debug', 'builder': 'builder', 'write_bit_ops': 'write', 'clear_bit_ops': 'clear',
          'set_get_bit_ops': 'setget', 'invert_bit_ops': 'invert', 'copy': 'copy'}


def absent_items(d):
    """user items under the names of every disabled group: they only compile
    when the macro leaves those names alone"""
    T = d.bty
    b = d.bob
    o = d.off
    fn = []
    tr = []

    def m(name, sig='', ret='u8', body='77'):
        fn.append('pub fn %s(%s) -> %s { %s }' % (name, sig, ret, body))
    if 'new' in o:
        m('new')
        m('new_without_defaults')
    if 'from_into' in o:
        for e in ('', 'le_', 'be_'):
            m('from_%s%s' % (e, b), '_v: ' + T)
            m('from_%s%s_with_defaults' % (e, b), '_v: ' + T)
            m('into_%s%s' % (e, b), '&self')
            if not d.is_int:
                for c in ('', 'checked_'):
                    m('%sfrom_%sslice' % (c, e), '_v: &[u8]')
                    m('%sfrom_%sslice_with_defaults' % (c, e), '_v: &[u8]')
                    m('%sinto_%sslice' % (c, e), '&self, _v: &mut [u8]')
    if 'write' in o:
        for e in ('', 'le_', 'be_'):
            m('write_%s%s' % (e, b), '&mut self, _v: ' + T)
            m('write_%s%s_with_defaults' % (e, b), '&mut self, _v: ' + T)
        m('write_defaults', '&mut self')
    if 'setget' in o:
        for c in ('', 'checked_'):
            m(c + 'get_bit', '&self')
            m(c + 'set_bit', '&mut self')
            m('%sget_%s_range' % (c, b), '&self')
            m('%sset_%s_range' % (c, b), '&mut self')
    if 'clear' in o:
        m('clear_' + b, '&mut self')
        m('clear_%s_with_defaults' % b, '&mut self')
    if 'invert' in o:
        m('invert_' + b, '&mut self')
    for f in d.fields:
        if f.reserved:
            continue
        if 'clear' in o and f.setter:
            m('clear_' + f.ident, '&mut self')
            m('clear_%s_to_default' % f.ident, '&mut self')
        if 'invert' in o:
            if f.setter:
                m('invert_' + f.ident, '&mut self')
            if f.getter:
                m(f.ident + '_inverted', '&self')
    if 'from_traits' in o:
        tr.append('impl From<%s> for X { fn from(_v: %s) -> X { unsafe { %s } } }' % (T, T, d.mk('[0xA5u8; %d]' % d.nbytes
                  if not d.is_int else '0xA5')))
        tr.append('impl From<X> for %s { fn from(_x: X) -> %s { %s } }' % (
            T, T, '[0x5Au8; %d]' % d.nbytes if not d.is_int else '0x5A'))
    if 'default' in o:
        tr.append('impl Default for X { fn default() -> X { %s } }' % d.mk(
            '[0xA5u8; %d]' % d.nbytes if not d.is_int else '0xA5'))
    if 'debug' in o:
        tr.append('impl ::core::fmt::Debug for X { fn fmt(&self, _f: &mut ::core::fmt::Formatter<\'_>) -> '
                  '::core::fmt::Result { Err(::core::fmt::Error) } }')
    if 'builder' in o:
        tr.append('pub struct XBuilder(u8);')
    if 'copy' in o:
        tr.append('impl Clone for X { fn clone(&self) -> X { %s } }' % d.mk(d.raw('self')))
    return 'impl X { %s }\n%s\n' % ('\n'.join(fn), '\n'.join(tr))


def config_corpus(tier, seed):
    import random
    from . import corpus
    L = []

    def fields(bk):
        return [Field('a', 'u8', 5, default=9), Field('b', 'i16', 10, access='ro', default=0xFFF3),
                Field('c', 'K8', 3), Field('_r', 'u8', 4, default=0xA), Field('d', 'bool', access='wo', default=1),
                Field('e', arr(2), 9)]

    def add(name, bk, args, off, order='lsb', heap=False, **kw):
        d = Def(name, bk, fields(bk), args=', '.join(args), off=off, order=order, heap=heap, **kw)
        d.tail = absent_items(d)
        L.append(d)
    bitgroups = ('write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops')
    for bk in ('u32', 4):
        for g in GROUPS:
            add('cfg_%s_%s' % (bk, g), bk, ['%s = false' % g], [OFFKEY[g]])
            add('cfg_%s_%s_true' % (bk, g), bk, ['%s = true' % g], [])
        add('cfg_%s_toggle' % bk, bk, ['toggle_bit_ops = false'], [])
        add('cfg_%s_bitops' % bk, bk, ['bit_ops = false'], [OFFKEY[g] for g in bitgroups])
        for g in bitgroups:
            add('cfg_%s_only_%s' % (bk, g), bk, ['bit_ops = false', '%s = true' % g],
                [OFFKEY[x] for x in bitgroups if x != g], order='msb')
            add('cfg_%s_rev_%s' % (bk, g), bk, ['%s = true' % g, 'bit_ops = false'],
                [OFFKEY[x] for x in bitgroups if x != g])
            add('cfg_%s_on_not_%s' % (bk, g), bk, ['bit_ops = true', '%s = false' % g], [OFFKEY[g]])
        add('cfg_%s_none' % bk, bk, ['%s = false' % g for g in GROUPS], [OFFKEY[g] for g in GROUPS])
    for g in GROUPS:
        add('cfg_heap_%s' % g, 4, ['%s = false' % g], [OFFKEY[g]], heap=True)
    add('cfg_int_heap', 'u32', ['array_heap = true'], [])
    rng = random.Random(31 + seed * (tier == 'thorough'))
    for i in range(8 if tier == 'quick' else 80):
        off = [g for g in GROUPS if rng.random() < 0.4]
        rng.shuffle(off)
        e = [rng.choice(['big', 'little']) for _ in range(3)]
        bk = rng.choice(['u32', 4])
        add('cfgr%d' % i, bk, ['%s = false' % g for g in off], [OFFKEY[g] for g in off],
            order=rng.choice(['lsb', 'msb']), heap=bk == 4 and rng.random() < 0.3, from_e=e[0], into_e=e[1],
            write_e=e[2])
    return L


def config_ops(d, tier):
    L = ops.field_ops(d) + ops.new_ops(d) + ops.from_ops(d) + ops.into_ops(d) + ops.bit_ops(d) + ops.write_ops(d) + \
        ops.clear_ops(d) + ops.invert_ops(d) + ops.builder_ops(d) + debug_ops(d) + \
        (ops.slice_ops(d) if tier == 'thorough' else ops.slice_ops(d)[::4]) + \
        ops.range_ops(d, full_offsets=0 if tier == 'quick' else 40)
    L = [h for h in L if not h.tags & {'setget'}]
    if 'copy' not in d.off:
        h = mkH(d, 'copy', 'config')
        h.state()
        h.line('let y = x%s; let z = x.clone(); fn c<T: Clone%s>(_: &T) {} c(&x);' % (
            '.clone()' if d.heap else '', '' if d.heap else ' + Copy'))
        h.out_state()
        h.out('y', d.nbytes, d.raw('y'))
        h.out('z', d.nbytes, d.raw('z'))
        h.checks = lambda I, O: [('a copy holds the same bits', z3.And(O['y'] == I['st'], O['z'] == I['st'])),
                                 ('the original is unchanged', O['post'] == I['st'])]
        L.append(h)
    # the names of a disabled group belong to the user
    h = mkH(d, 'names of disabled groups', 'config')
    h.state()
    n = 0

    def call(e):
        nonlocal n
        h.out('r%d' % n, 1, e)
        n += 1
    o = d.off
    if 'new' in o:
        call('X::new()')
        call('X::new_without_defaults()')
    if 'write' in o:
        call('x.write_defaults()')
    if 'setget' in o:
        call('x.set_bit()')
        call('x.checked_get_%s_range()' % d.bob)
    if 'clear' in o:
        call('x.clear_%s()' % d.bob)
    if 'invert' in o:
        call('x.invert_%s()' % d.bob)
    if 'from_into' in o:
        call('x.into_%s()' % d.bob)
    if n:
        h.out_state()
        h.checks = lambda I, O: [('the user\'s own function runs', O['r%d' % k] == 77) for k in range(n)] + \
            [('state untouched', O['post'] == I['st'])]
        L.append(h)
    if 'from_traits' in o:
        h = mkH(d, 'user conversions', 'config')
        h.state(mut=False)
        h.out('t', d.nbytes, '<%s as From<X>>::from(x)' % d.bty)
        h.checks = lambda I, O: [('the user\'s own conversion runs', O['t'] == (
            BV(0x5A, d.N) if d.is_int else BV(int.from_bytes(b'\x5a' * d.nbytes, 'little'), d.N)))]
        L.append(h)
    return L


# ------------------------------------------------- Cargo features as defaults
class FeatDef(Def):
    """a definition whose effective configuration comes from the crate's Cargo features, overridden by the
    arguments in `given`"""

    def __init__(self, crate, given, *a, **kw):
        super().__init__(*a, **kw)
        self.crate = crate
        self.given = given

    def settings(self):
        return list(self.given)


class FeatFlag(FlagDef):
    def __init__(self, crate, given, *a, **kw):
        super().__init__(*a, **kw)
        self.crate = crate
        self.given = given

    def rust(self):
        # printed with every setting at its documented default, then the arguments that are really given
        keep = self.from_e, self.into_e, self.copy
        self.from_e = self.into_e = 'big'
        self.copy = True
        try:
            t = super().rust()
        finally:
            self.from_e, self.into_e, self.copy = keep
        if self.given:
            t = t.replace('#[bitflag(u%d' % self.N, '#[bitflag(u%d, %s' % (self.N, ', '.join(self.given)), 1)
        if not self.copy:
            # Clone and Copy are not derived: the user can
            t = t.replace('pub enum X', '#[derive(Clone, Copy)]\npub enum X', 1)
        return t


SWITCHES = ('new', 'from_into_bits', 'from_traits', 'default', 'debug', 'copy', 'builder', 'bit_ops', 'write_bit_ops',
            'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops')


def feature_name(k, v):
    """the Cargo feature that sets argument k to v by default"""
    if k == 'order' or k.endswith('_endian'):
        return '%s_%s' % (k, v)
    if k == 'array_heap':
        return 'enable_array_heap' if v else 'disable_array_heap'
    if k == 'copy':
        return 'derive_copy' if v else 'disable_copy'
    return ('generate_' if v else 'disable_') + k


def effective(feat, args):
    """the configuration that features and arguments together ask for"""
    e = dict(order='lsb', from_endian='big', into_endian='big', write_endian='big', array_heap=False)
    e.update((k, True) for k in SWITCHES)
    e.update(feat)
    master = args.get('bit_ops', e['bit_ops'])
    for k in ('write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops'):
        e[k] = args[k] if k in args else (e[k] and master)
    e.update((k, v) for k, v in args.items() if k not in ('write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops',
                                                          'invert_bit_ops'))
    return e


# each line is one build of the crate: the defaults its features choose
FEATURE_SETS = [
    dict(order='msb', from_endian='little', write_endian='little', array_heap=True, copy=False, default=False,
         flag_from='little', flag_copy=False),
    dict(into_endian='little', from_endian='big', order='lsb', new=False, debug=False, from_traits=False,
         bit_ops=False, flag_into='little', flag_copy=True),
    dict(builder=False, from_into_bits=False, write_bit_ops=False, invert_bit_ops=False, order='msb',
         flag_from='little', flag_into='little', array_heap=False, default=True),
    dict(clear_bit_ops=False, set_get_bit_ops=False, write_endian='little', into_endian='little', new=True, bit_ops=True,
         flag_from='big', flag_into='big'),
    {},
]


def feature_list(fs):
    L = []
    for k, v in fs.items():
        if k == 'flag_copy':
            L.append('bitflag_derive_copy' if v else 'bitflag_disable_copy')
        elif k.startswith('flag_'):
            L.append('bitflag_%s_endian_%s' % (k[5:], v))
        else:
            L.append(feature_name(k, v))
    return tuple(L)


def feature_corpus(tier, seed):
    import random
    L = []
    sets = [('impl', fs) for fs in FEATURE_SETS]
    rng = random.Random(611 + seed * (tier == 'thorough'))

    def rand_cfg(p):
        c = {}
        for k in ('order', 'from_endian', 'into_endian', 'write_endian', 'array_heap') + SWITCHES:
            if rng.random() < p:
                c[k] = rng.choice(['lsb', 'msb']) if k == 'order' else rng.choice(['big', 'little']) \
                    if k.endswith('endian') else rng.random() < (0.4 if k == 'array_heap' else 0.5)
        return c
    if tier == 'thorough':
        for _ in range(12):
            fs = rand_cfg(0.4)
            for k in ('flag_from', 'flag_into'):
                if rng.random() < 0.7:
                    fs[k] = rng.choice(['big', 'little'])
            sets.append(('impl', fs))

    def fields():
        return [Field('a', 'u8', 5, default=9), Field('b', 'i16', 10, access='ro', default=0xFFF3),
                Field('c', 'K8', 3), Field('_r', 'u8', 4, default=0xA), Field('d', 'bool', access='wo', default=1),
                Field('e', arr(2), 9)]

    def add(crate, name, bk, fs, args):
        e = effective({k: v for k, v in fs.items() if not k.startswith('flag_')}, args)
        given = ['%s = %s' % (k, v if isinstance(v, str) else str(v).lower()) for k, v in args.items()]
        rng.shuffle(given)
        d = FeatDef(crate, given, name, bk, fields(), order=e['order'], from_e=e['from_endian'],
                    into_e=e['into_endian'], write_e=e['write_endian'], heap=e['array_heap'] and bk == 4,
                    off=[OFFKEY[g] for g in GROUPS if not e[g]])
        d.tail = absent_items(d)
        L.append(d)
    for n, (kind, fs) in enumerate(sets):
        crate = (kind, feature_list(fs))
        for bk in ('u32', 4):
            add(crate, 'feat%d_%s' % (n, bk), bk, fs, {})
            inv = {}
            for k, v in fs.items():
                if not k.startswith('flag_'):
                    inv[k] = {'lsb': 'msb', 'msb': 'lsb', 'big': 'little', 'little': 'big', True: False,
                              False: True}[v]
            add(crate, 'feat%d_%s_inv' % (n, bk), bk, fs, inv)
            for i in range(1 if tier == 'quick' else 4):
                add(crate, 'feat%d_%s_mix%d' % (n, bk, i), bk, fs, rand_cfg(0.35))
        ff, fi = fs.get('flag_from', 'big'), fs.get('flag_into', 'big')
        cp = fs.get('flag_copy', True)
        other = {'big': 'little', 'little': 'big'}
        L.append(FeatFlag(crate, [], 'feat%d_flag' % n, 32, [1, 0x8000, 77], 1, ff, fi, copy=cp))
        L.append(FeatFlag(crate, ['from_endian = ' + other[ff]], 'feat%d_flag_from' % n, 16, [1, 0x80, 77], 2, other[ff],
                          fi, copy=cp))
        L.append(FeatFlag(crate, ['into_endian = ' + other[fi], 'copy = %s' % str(not cp).lower()],
                          'feat%d_flag_into' % n, 64, [1, 0x80, 77], 0, ff, other[fi], copy=not cp))
    # the same features asked of the `bitfields` crate itself, as its README tells users to
    for name, fs in (('order_msb', dict(order='msb')), ('from_endian_little', dict(from_endian='little')),
                     ('into_endian_little', dict(into_endian='little')),
                     ('write_endian_little', dict(write_endian='little'))):
        crate = ('facade', feature_list(fs))
        d = FeatDef(crate, [], 'facade_' + name, 'u32', fields(), order=fs.get('order', 'lsb'),
                    from_e=fs.get('from_endian', 'big'), into_e=fs.get('into_endian', 'big'),
                    write_e=fs.get('write_endian', 'big'))
        L.append(d)
    crate = ('facade', ('bitflag_from_endian_little',))
    L.append(FeatFlag(crate, [], 'facade_bitflag_from_endian_little', 32, [1, 0x8000, 77], 1, 'little'))
    return L


def feature_ops(d, tier):
    if isinstance(d, FlagDef):
        return [h for h in flag_ops(d) if not d.name.startswith('facade_') or h.op == 'bitflag from_bits']
    if d.name.startswith('facade_'):
        op = {'order': 'get a', 'from': 'from_bits', 'into': 'into_bits', 'write': 'write_bits'}[d.name.split('_')[1]]
        return [h for h in ops.field_ops(d) + ops.from_ops(d) + ops.into_ops(d) + ops.write_ops(d) if h.op == op]
    return config_ops(d, tier)


# ------------------------------------------- without std, in constants
def bare_corpus(tier, seed):
    from . import corpus
    L = [d for d in corpus.core() if not d.heap]
    if tier == 'quick':
        keep = [d for d in L if d.ignored or d.off or any(f.ty.kind == 'custom' for f in d.fields)]
        L = keep[::2] + [d for d in L if d not in keep][::4] + corpus.rand(10, 4100, 'n')
    else:
        L += corpus.rand(60, 4100, 'n') + corpus.rand(20, 4100 + seed, 'ns')
    L = [d for d in L if not d.heap] + flag_corpus('quick', seed)[::1 if tier == 'thorough' else 3]
    for d in L:
        d.crate = ('nostd', ())
    return L


def bare_ops(d, tier):
    """in a no_std crate; and, where nothing stands in the way (ignored fields are not const-constructible), from
    harnesses that are const fns themselves"""
    if isinstance(d, FlagDef):
        L = flag_ops(d)
        for h in L:
            h.const = h.op != 'bitflag Default' and h.op != 'bitflag copy'
        return L
    L = ops.field_ops(d) + ops.new_ops(d) + ops.from_ops(d) + ops.into_ops(d) + ops.bit_ops(d) + ops.write_ops(d) + \
        ops.clear_ops(d) + ops.invert_ops(d) + ops.builder_ops(d) + ops.slice_ops(d)[::1 if tier == 'thorough' else 4] + \
        ops.range_ops(d, full_offsets=0 if tier == 'quick' else 24)
    L = [h for h in L if 'setget' not in h.tags]
    for h in L:
        h.const = not d.ignored and not ({'trait', 'default'} & h.tags) and 'default.build' not in h.op
    return L + debug_ops(d)
