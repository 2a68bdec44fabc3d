"""Symbolic execution of the macro itself over definitions with symbolic text.

The sources of the macro crate in /repo are compiled as an ordinary library
(proc_macro types replaced by proc_macro2's), together with syn, quote,
proc-macro2 and the parts of std they use, into one LLVM module.  conc.py
executes `bitfield(args, item)` on the text of a definition in which chosen
characters (digits of widths, defaults, sizes; letters of names) are symbolic,
and explores every path.  For each path the solver decides that the outcome
(accepted or rejected, and the emitted layout constants) is the documented one
for every text on the path."""
import glob
import os
import re
import shutil
import subprocess
import threading
import time
import tomllib

import z3

from . import build, conc

HARNESS = r'''
mod bfv_entry {
    use std::str::FromStr;
    use proc_macro2::{TokenStream, TokenTree};
    fn bad(t: TokenStream) -> bool {
        for x in t {
            match x {
                TokenTree::Ident(i) => if i == "compile_error" { return true },
                TokenTree::Group(g) => if bad(g.stream()) { return true },
                _ => {}
            }
        }
        false
    }
    fn num(s: &str) -> u64 {
        let mut v = 0u64;
        for c in s.bytes() { if c.is_ascii_digit() { v = v * 10 + (c - b'0') as u64 } else { break } }
        v
    }
    /// values of `const NAME: T = <literal>;`
    fn consts(t: TokenStream, names: &[&str], out: &mut [u64]) {
        let v: Vec<TokenTree> = t.into_iter().collect();
        for (i, x) in v.iter().enumerate() {
            match x {
                TokenTree::Group(g) => consts(g.stream(), names, out),
                TokenTree::Ident(id) if id == "const" && i + 6 < v.len() => {
                    let s = v[i + 1].to_string();
                    if let Some(k) = names.iter().position(|n| *n == s) {
                        if let (TokenTree::Literal(l), TokenTree::Punct(p)) = (&v[i + 5], &v[i + 6]) {
                            if p.as_char() == ';' { out[k] = num(&l.to_string()) }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn text<'a>(p: *const u8, n: usize) -> &'a str {
        unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn bfv_entry(a: *const u8, an: usize, b: *const u8, bn: usize, c: *const u8, cn: usize,
                                kind: usize, out: *mut u64, on: usize) -> u32 {
        let (Ok(x), Ok(y)) = (TokenStream::from_str(text(a, an)), TokenStream::from_str(text(b, bn))) else { return 3 };
        let r = if kind == 0 { super::bitfield(x, y) } else { super::bitflag(x, y) };
        if bad(r.clone()) { return 1 }
        if on > 0 {
            let names: Vec<&str> = text(c, cn).split(' ').collect();
            consts(r, &names, unsafe { core::slice::from_raw_parts_mut(out, on) });
        }
        0
    }
}
pub use bfv_entry::bfv_entry;
'''

MAIN = r'''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = a[4].split(' ').filter(|x| !x.is_empty()).count();
    let mut o = vec![u64::MAX; n];
    let r = mx::bfv_entry(a[1].as_ptr(), a[1].len(), a[2].as_ptr(), a[2].len(), a[4].as_ptr(), a[4].len(),
                          a[3].parse().unwrap(), o.as_mut_ptr(), n);
    println!("{} {:?}", r, o);
}
'''


class Built:
    pass


def prepare(work, features=None):
    """the macro crate as a plain library plus the entry point, as one LLVM module"""
    src = os.path.join(build.REPO, 'bitfields_impl')
    w = os.path.join(work, 'mx')
    shutil.copytree(os.path.join(src, 'src'), os.path.join(w, 'src'))
    for p in glob.glob(os.path.join(w, 'src', '**', '*.rs'), recursive=True):
        with open(p) as f:
            t = f.read()
        t2 = re.sub(r'\bproc_macro::', 'proc_macro2::', t)
        if os.path.relpath(p, os.path.join(w, 'src')) == 'lib.rs':
            t2 = re.sub(r'^\s*#\s*\[\s*proc_macro_attribute\s*\]\s*$', '', t2, flags=re.M)
            t2 = re.sub(r'^\s*extern crate proc_macro;\s*$', '', t2, flags=re.M)
            t2 = re.sub(r'^\s*//[/!].*$', '', t2, flags=re.M)
            t2 += HARNESS
        if t2 != t:
            with open(p, 'w') as f:
                f.write(t2)
    with open(os.path.join(w, 'src', 'main.rs'), 'w') as f:
        f.write(MAIN)
    with open(os.path.join(src, 'Cargo.toml'), 'rb') as f:
        toml = tomllib.load(f)
    deps = []
    for n, d in toml.get('dependencies', {}).items():
        if isinstance(d, str):
            d = {'version': d}
        d = dict(d)
        if n in ('syn', 'quote', 'proc-macro2'):
            fs = list(d.get('features', []))
            if n == 'syn':
                fs += [x for x in ('parsing', 'printing', 'clone-impls', 'derive') if x not in fs]
            d['features'] = [x for x in fs if x != 'proc-macro']
            d['default-features'] = False
        deps.append('%s = { %s }' % (n, ', '.join('%s = %s' % (k, tv(v)) for k, v in d.items())))
    feats = ['%s = %s' % (k, tv(v)) for k, v in toml.get('features', {}).items()]
    with open(os.path.join(w, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "mx"\nversion = "0.0.0"\nedition = "%s"\n[dependencies]\n%s\n[features]\n%s\n'
                '[workspace]\n[profile.release]\npanic = "abort"\nlto = "fat"\ncodegen-units = 1\nopt-level = 1\n'
                'debug = 0\noverflow-checks = true\n' % (toml['package'].get('edition', '2021'), '\n'.join(deps), '\n'.join(feats)))
    lock = os.path.join(build.REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    cmd = ['cargo', 'rustc', '--release', '--offline', '--bin', 'mx', '--', '--emit=llvm-ir,link']
    r = subprocess.run(cmd, cwd=w, env=build.env(), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError('the macro crate does not build as a library:\n' + r.stderr[-4000:])
    b = Built()
    b.ll = glob.glob(os.path.join(w, 'target', 'release', 'deps', 'mx-*.ll'))[0]
    b.exe = os.path.join(w, 'target', 'release', 'mx')
    return b


def tv(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, list):
        return '[%s]' % ', '.join(tv(x) for x in v)
    return '"%s"' % v


# ---------------------------------------------------------------- templates
class S:
    """n symbolic characters of a class"""
    CLS = {'d': '0123456789', 'a': 'abcdefghijklmnopqrstuvwxyz', 'h': '0123456789abcdef',
           's': 'ui', 'D': '123456789', 'b': '01', 'o': '01234567'}

    def __init__(self, name, n, cls='d'):
        self.name = name
        self.n = n
        self.cls = cls


class T:
    """args and item: lists of str and S; want(v) gives the documented outcome for the symbolic parts:
    (accept, unconstrained, [(constant name, expected value)])"""

    def __init__(self, name, args, item, want, kind=0, consts=()):
        self.name = name
        self.args = args if isinstance(args, list) else [args]
        self.item = item if isinstance(item, list) else [item]
        self.want = want
        self.kind = kind
        self.consts = list(consts)
        self.cost = 1.0       # estimated
        self.vars = {}
        self.assume = []
        self.parts = {}
        self.vrange = {}
        self.cls = {}
        for p in self.args + self.item:
            if isinstance(p, S):
                l = []
                for i in range(p.n):
                    v = z3.BitVec('%s.%d' % (p.name, i), 8)
                    cs = S.CLS[p.cls]
                    self.assume.append(in_class(v, cs))
                    self.cls[v.decl().name()] = self.assume[-1]
                    self.vrange[v.decl().name()] = (ord(min(cs)), ord(max(cs)))
                    l.append((v, ord(cs[0])))
                self.parts[p.name] = l

    def text(self, parts, vals):
        """concrete bytes and positions of the symbolic ones"""
        out = bytearray()
        pos = {}
        for p in parts:
            if isinstance(p, str):
                out += p.encode()
            else:
                for v, d in self.parts[p.name]:
                    pos[len(out)] = v
                    out.append(vals.get(v.decl().name(), d))
        return bytes(out), pos


def in_class(v, cs):
    rs = []
    i = 0
    cs = sorted(cs)
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
            j += 1
        rs.append(z3.And(z3.UGE(v, ord(cs[i])), z3.ULE(v, ord(cs[j]))))
        i = j + 1
    return z3.Or(*rs) if len(rs) > 1 else rs[0]


class V:
    """symbolic parts of a template as 160-bit numbers or as text"""

    def __init__(self, t):
        self.t = t
        self.w = 160

    def num(self, name, base=10):
        r = z3.BitVecVal(0, self.w)
        for v, _ in self.t.parts[name]:
            x = z3.ZeroExt(self.w - 8, v)
            if base > 10:
                x = z3.If(z3.UGE(v, 97), x - 87, x - 48)
            else:
                x = x - 48
            r = r * base + x
        return r

    def isstr(self, name, s):
        p = self.t.parts[name]
        if len(s) != len(p):
            return z3.BoolVal(False)
        return z3.And(*[v == ord(c) for (v, _), c in zip(p, s)])

    def oneof(self, name, l):
        return z3.Or(*[self.isstr(name, s) for s in l]) if l else z3.BoolVal(False)


# ---------------------------------------------------------------- exploring
class Outcome:
    pass


def run_path(E, t, vals):
    E.reset(t.assume)
    E.vrange = t.vrange
    A, pa = t.text(t.args, vals)
    B, pb = t.text(t.item, vals)
    C = ' '.join(t.consts).encode()
    a = E.put_input(A, pa)
    b = E.put_input(B, pb)
    c = E.put_input(C, {})
    out = E.malloc(8 * len(t.consts) + 8, 8)
    for i in range(len(t.consts)):
        E.st(out + 8 * i, (1 << 64) - 1, 8)
    o = Outcome()
    o.msg = ''
    try:
        r = E.G[E.fnref('@bfv_entry')](a, len(A), b, len(B), c, len(C), t.kind, out, len(t.consts))
        o.code = E.conc(r)
    except conc.ProgPanic as e:
        o.code = 2
        o.msg = str(e)
    o.consts = [E.ld(out + 8 * i, 8) for i in range(len(t.consts))]
    o.path = list(E.path)
    return o


def explore(E, t, max_paths, deadline, st):
    """visits every path; yields violations as (kind, model values)"""
    v = V(t)
    accept, free, consts = t.want(v)
    allv = {x.decl().name(): x for l in t.parts.values() for x, _ in l}
    # start from an accepted text if there is one
    so = z3.Solver()
    so.add(*t.assume)
    so.add(accept)
    st['queries'] += 1
    init = {}
    if so.check() == z3.sat:
        init = model_vals(so.model(), allv)
    work = [(init, 0)]
    vs = {}
    cache = {}

    def vars_of(c):
        k = c.get_id()
        r = vs.get(k)
        if r is None:
            r = vs[k] = (frozenset(free_vars(c)), c)
        return r[0]

    def holds(o, *bad):
        so = z3.SolverFor('QF_BV')
        so.add(*t.assume)
        so.add(*o.path)
        so.add(*bad)
        st['queries'] += 1
        r = so.check()
        if r == z3.sat:
            return model_vals(so.model(), allv)
        if r != z3.unsat:
            st['unknown'] += 1
        return None

    def flip(path, i):
        """values of the affected characters that keep path[:i] and leave path[i]; None if there are none"""
        need = set(vars_of(path[i]))
        rest = list(path[:i])
        used = []
        grow = True
        while grow:
            grow = False
            keep = []
            for c in rest:
                if vars_of(c) & need:
                    need |= vars_of(c)
                    used.append(c)
                    grow = True
                else:
                    keep.append(c)
            rest = keep
        key = (path[i].get_id(), frozenset(c.get_id() for c in used))
        if key in cache:
            return cache[key]
        so = z3.SolverFor('QF_BV')
        for n in need:
            so.add(t.cls[n])
        so.add(*used)
        so.add(z3.Not(path[i]))
        st['queries'] += 1
        r = so.check()
        m = None
        if r == z3.sat:
            m = model_vals(so.model(), {n: allv[n] for n in need})
        elif r != z3.unsat:
            st['unknown'] += 1
        cache[key] = m
        return m
    npaths = 0
    found = []
    codes = {}
    while work:
        if npaths >= max_paths or time.time() > deadline:
            st['incomplete'] = '%d paths explored, %d inputs left' % (npaths, len(work))
            break
        vals, bound = work.pop()
        o = run_path(E, t, vals)
        npaths += 1
        codes[o.code] = codes.get(o.code, 0) + 1
        st['branches'] += len(o.path)
        if len(st['sample']) < 4:
            st['sample'].append((vals, o.code, [c.v if c.__class__ is conc.Sym else c for c in o.consts]))
        tq = time.time()
        # the assertion, for every text on this path
        if o.code in (0, 1, 3):
            m = holds(o, z3.Not(accept) if o.code == 0 else accept, z3.Not(free))
            if m is not None:
                found.append(('accepted' if o.code == 0 else 'rejected', m))
            if o.code == 0:
                bad = []
                for (nm, exp), got in zip(consts, o.consts):
                    if got.__class__ is not conc.Sym and got == (1 << 64) - 1:
                        st['noconst'].add(nm)
                        continue
                    bad.append((nm, z3.ZeroExt(exp.size() - 64, conc.bv(got, 64)) != exp if exp.size() >= 64 else
                                conc.bv(got, 64) != z3.ZeroExt(64 - exp.size(), exp)))
                    st['asserts'] += 1
                if bad:
                    m = holds(o, accept, z3.Not(free), z3.Or(*[b for _, b in bad]))
                    if m is not None:
                        found.append(('constants ' + ' '.join(n for n, _ in bad), m))
        else:
            found.append(('panicked', vals))
        st['asserts'] += 1
        # the other side of every branch after the bound
        for i in range(bound, len(o.path)):
            m = flip(o.path, i)
            if m is not None:
                work.append(({**vals, **m}, i + 1))
        st['solver_s'] += time.time() - tq
        if len(found) > 8:
            break
    st['paths'] += npaths
    st['codes'] = codes
    return found


def free_vars(e):
    out = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            todo += x.children()
    return out


def model_vals(m, allv):
    out = {}
    for n, v in allv.items():
        out[n] = m.eval(v, model_completion=True).as_long()
    return out
