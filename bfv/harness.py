"""A harness: one extern "C" function `h(i, o)` in the generated crate that
reads symbolic inputs from i, calls the generated API, writes what it observed
to o; plus the assertions over (inputs, outputs)."""
from .model import *


class H:
    def __init__(self, d, op, group=''):
        self.d = d
        self.op = op
        self.ins = []        # (name, offset, nbytes)
        self.outs = []       # (name, offset, nbytes)
        self.isz = 0
        self.osz = 0
        self.body = []
        self.checks = None   # function(I, O) -> [(label, Bool)]
        self.pre = None      # function(I) -> Bool
        self.name = None
        self.may_panic = None    # function(I) -> Bool: panic allowed
        self.sym_stub = None
        self.native = None       # function(I, text) -> violated labels, for sym_stub harnesses
        self.tags = set()
        self.bound = ''
        self.cost = 1.0
        self.split = None    # (input name, values)
        self.const = False   # the harness itself is a const fn, so everything it calls has to be one

    # inputs
    def inp(self, name, nbytes, rust_ty):
        off = self.isz
        self.ins.append((name, off, nbytes))
        self.isz += nbytes
        self.body.append('let %s: %s = rd(i, %d);' % (name, rust_ty, off))
        return name

    def state(self, name='st', x='x', mut=True):
        d = self.d
        self.inp(name, d.nbytes, d.bty)
        ign = {}
        for f in d.ignored:
            w = f.ty.wire
            nm = 'ig_' + f.ident
            self.inp(nm, w, f.ty.wire_ty())
            ign[f.name] = f.ty.build(nm)
        self.body.append('let %s%s = %s;' % ('mut ' if mut else '', x, d.mk(name, ign)))

    def val(self, name, f_ty):
        self.inp(name + '_w', f_ty.wire, f_ty.wire_ty())
        self.body.append('let %s = %s;' % (name, f_ty.build(name + '_w')))

    def line(self, s):
        self.body.append(s)

    def out(self, name, nbytes, expr):
        off = self.osz
        self.outs.append((name, off, nbytes))
        self.osz += nbytes
        self.body.append('wr(o, %d, %s);' % (off, expr))

    def out_slot(self, name, nbytes):
        """reserve an output written conditionally (zero otherwise)"""
        off = self.osz
        self.outs.append((name, off, nbytes))
        self.osz += nbytes
        return off

    def out_state(self, name='post', x='x'):
        self.out(name, self.d.nbytes, self.d.raw(x))

    def out_ign(self, x='x', prefix='oig_'):
        for f in self.d.ignored:
            self.out(prefix + f.ident, f.ty.wire, f.ty.dump('%s.%s' % (x, f.name)))

    def out_result(self, name, expr, nbytes, dump):
        """Result<T, _> -> <name>_ok flag and <name> value"""
        ok = self.out_slot(name + '_ok', 1)
        v = self.out_slot(name, nbytes) if nbytes else None
        if nbytes:
            self.body.append('match %s { Ok(v) => { wr(o, %d, 1u8); wr(o, %d, %s); } Err(_) => wr(o, %d, 0u8) }' % (
                expr, ok, v, dump('v'), ok))
        else:
            self.body.append('match %s { Ok(()) => wr(o, %d, 1u8), Err(_) => wr(o, %d, 0u8) }' % (expr, ok, ok))

    def rust(self):
        return ('#[unsafe(no_mangle)]\npub %sunsafe extern "C" fn %s(i: *const u8, o: *mut u8) { unsafe {\n    %s\n} }\n' %
                ('const ' if self.const else '', self.name, '\n    '.join(self.body)))


PRELUDE = '''#![allow(warnings)]
#![allow(arithmetic_overflow, unconditional_panic)]
%s
#[inline(always)] const unsafe fn rd<T: Copy>(p: *const u8, o: usize) -> T { unsafe { (p.add(o) as *const T).read_unaligned() } }
#[inline(always)] const unsafe fn wr<T>(p: *mut u8, o: usize, v: T) { unsafe { (p.add(o) as *mut T).write_unaligned(v) } }
use bitfields::{bitfield, bitflag};
%s
'''


STD = 'extern crate std;\nuse std::boxed::Box;'
# no standard library in scope; the native builds for replay get it back for their panic machinery only
NOSTD = '#![cfg_attr(not(bfv_native), no_std)]'


def prelude(crate=None):
    """with chosen Cargo features the macros' own types would mean something else: leave those out"""
    nostd = crate is not None and crate[0] == 'nostd'
    types = ''.join(v for k, v in CUSTOM.items()
                    if crate is None or nostd or not isinstance(TY[k], (FlagTy, NestTy)))
    return PRELUDE % (NOSTD if nostd else STD, types)


def module_src(k, d, hs):
    return 'mod d%d { use super::*; use bitfields::{bitfield, bitflag};\n%s\n%s\n}\n' % (
        k, d.rust(), '\n'.join(h.rust() for h in hs))
