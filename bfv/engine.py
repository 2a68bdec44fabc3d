"""Decides harnesses: encode (symex), query (z3), replay (native)."""
import json
import os
import subprocess
import sys
import time
import traceback

import z3

from . import ir, symex
from .harness import prelude, module_src

TIMEOUT_MS = int(os.environ.get('BFV_TIMEOUT_MS', '240000'))


def cells_to_bv(exe, cells):
    return exe.get(cells, 0, ('i', 8 * len(cells))) if cells else None


def as_bv(v, n):
    return symex.to_bv(v, n)


class Result:
    def __init__(self, h):
        self.name = h.name
        self.op = h.op
        self.dname = h.d.name if h.d is not None else ''
        self.status = None       # 'holds' | 'cex' | 'unsupported' | 'unknown' | 'vacuous'
        self.detail = ''
        self.labels = []
        self.nchecks = 0
        self.cex = None          # input bytes hex
        self.cex_kind = None
        self.witness = None      # (input hex, output hex)
        self.queries = 0
        self.solver_s = 0.0
        self.encode_s = 0.0
        self.funcs = {}
        self.insts = 0


def model_bytes(model, var, nbytes):
    v = model.eval(var, model_completion=True).as_long()
    return v.to_bytes(nbytes, 'little')


def inputs_of(model, h, I):
    b = bytearray(h.isz)
    for n, off, nb in h.ins:
        b[off:off + nb] = model_bytes(model, I[n], nb)
    return bytes(b)


def decide(module, h):
    """decide one harness; with h.split = (input, values) the input space is
    partitioned: one query set per value of that input plus one for the rest"""
    if not h.split:
        return decide_case(module, h)
    name, vals = h.split
    tot = None
    for v in list(vals) + [None]:
        r = decide_case(module, h, name, v, vals)
        if tot is None:
            tot = r
        else:
            for a in ('queries', 'solver_s', 'encode_s', 'insts'):
                setattr(tot, a, getattr(tot, a) + getattr(r, a))
            tot.nchecks += r.nchecks
            for f, n in r.funcs.items():
                tot.funcs[f] = tot.funcs.get(f, 0) + n
            if r.status != 'holds':
                for a in ('status', 'detail', 'labels', 'cex', 'cex_kind'):
                    setattr(tot, a, getattr(r, a))
        if tot.status != 'holds':
            break
    return tot


def decide_case(module, h, sname=None, sval=None, svals=()):
    r = Result(h)
    t0 = time.time()
    try:
        stubs = h.sym_stub() if h.sym_stub else None
        exe = symex.Exec(module, stubs)
        iobj = exe.new_obj('in', h.isz, True)
        oobj = exe.new_obj('out', h.osz)
        I = {n: z3.BitVec('in_' + n, 8 * nb) for n, _, nb in h.ins}
        icells = []
        for n, off, nb in h.ins:
            icells += [(I[n], k) for k in range(nb)]
        mem = {iobj: icells, oobj: [0] * h.osz}
        pre = h.pre(I) if h.pre else z3.BoolVal(True)
        if sname is not None:
            n, off, nb = [x for x in h.ins if x[0] == sname][0]
            if sval is not None:
                icells[off:off + nb] = [(sval >> (8 * k)) & 0xff for k in range(nb)]
                pre = z3.And(pre, I[sname] == sval)
            else:
                pre = z3.And(pre, *[I[sname] != v for v in svals])
        exe.solver.add(pre)
        st, _ = exe.run('@' + h.name, [symex.Ptr(iobj, 0), symex.Ptr(oobj, 0)], mem)
        O = {}
        if st is not None:
            cells = st.mem[oobj]
            for n, off, nb in h.outs:
                O[n] = as_bv(exe.get(cells, off, ('i', 8 * nb)), 8 * nb)
            if h.sym_stub:
                O['__log'] = st.log
                O['__exe'] = exe
                O['__st'] = st
            checks = h.checks(I, O)
            ret = symex.conj(st.pc)
        else:
            checks = []
            ret = z3.BoolVal(False)
        r.encode_s = time.time() - t0
        r.nchecks = len(checks) + 1
        r.funcs = dict(exe.encoded)
        r.insts = sum(exe.encoded.values())
        r.queries = exe.queries
        bad_ev = [e.cond for e in exe.events]
        if h.may_panic is not None and bad_ev:
            allow = h.may_panic(I)
            bad_ev = [z3.And(e.cond, z3.Not(allow)) if e.kind == 'panic' else e.cond for e in exe.events]
        bad = []
        if bad_ev:
            bad.append(z3.Or(*bad_ev) if len(bad_ev) > 1 else bad_ev[0])
        negs = [z3.Not(c) for _, c in checks]
        if negs:
            bad.append(z3.And(ret, z3.Or(*negs) if len(negs) > 1 else negs[0]))

        def check(*fs):
            s = z3.SolverFor('QF_BV')
            s.set('timeout', TIMEOUT_MS)
            s.add(pre)
            s.add(*fs)
            t = time.time()
            res = s.check()
            r.solver_s += time.time() - t
            r.queries += 1
            return res, s

        # vacuity: some input reaches the end
        res, s = check(ret)
        if res == z3.sat and st is not None:
            m = s.model()
            ib = inputs_of(m, h, I)
            ob = bytearray(h.osz)
            for n, off, nb in h.outs:
                ob[off:off + nb] = model_bytes(m, O[n], nb)
            r.witness = (ib.hex(), bytes(ob).hex())
        elif res == z3.unknown:
            r.status = 'unknown'
            r.detail = 'witness query'
            return r
        q = z3.Or(*bad) if len(bad) > 1 else (bad[0] if bad else z3.BoolVal(False))
        res, s = check(q)
        if res == z3.unknown:
            # decide the assertions one by one
            res = z3.unsat
            for b in bad_ev + [z3.And(ret, n) for n in negs]:
                res1, s1 = check(b)
                if res1 == z3.sat:
                    res, s = res1, s1
                    break
                if res1 == z3.unknown:
                    res = res1
            if res == z3.unknown:
                r.status = 'unknown'
                r.detail = 'solver timeout'
                return r
        if res == z3.unsat:
            if r.witness is None:
                r.status = 'vacuous'
            else:
                r.status = 'holds'
            return r
        m = s.model()
        r.cex = inputs_of(m, h, I).hex()
        r.status = 'cex'
        lab = []
        for e, c in zip(exe.events, bad_ev):
            if z3.is_true(m.eval(c, model_completion=True)):
                lab.append('%s: %s' % (e.kind, short(e.detail)))
        for (l, c) in checks:
            if z3.is_true(m.eval(z3.And(ret, z3.Not(c)), model_completion=True)):
                lab.append(l)
        r.labels = lab
        r.cex_kind = 'panic' if lab and lab[0].startswith(('panic', 'ub', 'unreachable')) else 'mismatch'
        return r
    except ir.Unsupported as e:
        r.status = 'unsupported'
        r.detail = str(e)
        return r
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, AssertionError, IndexError,
            ValueError) as e:
        r.status = 'unsupported'
        r.detail = 'internal: ' + ''.join(traceback.format_exception(e))[-(4000 if globals().get('DEBUG') else 400):].replace('\n', ' ')
        return r


def short(n):
    if 'panic_const' in n:
        return n.split('panic_const_')[-1]
    for k in ('panic_bounds_check', 'slice_index_fail', 'unwrap_failed', 'panic_fmt'):
        if k in n:
            return k
    return n[-60:]


RUNNER = r'''
import ctypes, json, os, sys
so = sys.argv[1]
jobs = json.load(sys.stdin)
lib = ctypes.CDLL(so)
res = []
for name, ihex, osz in jobs:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            f = getattr(lib, name)
            ib = bytes.fromhex(ihex)
            i = ctypes.create_string_buffer(ib, max(1, len(ib)))
            o = ctypes.create_string_buffer(osz + 64)
            f(i, o)
            os.write(w, o.raw[:osz].hex().encode() + b'.')
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if data.endswith(b'.'):
        res.append(['ok', data[:-1].decode()])
    else:
        res.append(['abort', 'status %d' % stt])
print(json.dumps(res))
'''


def run_native(so, jobs):
    p = subprocess.run([sys.executable, '-c', RUNNER, so], input=json.dumps(jobs), capture_output=True, text=True,
                       timeout=600)
    if p.returncode:
        raise RuntimeError('native runner: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def native_verdict(h, ihex, res):
    """evaluate the assertions on a concrete native run -> list of violated labels"""
    kind, data = res
    ib = bytes.fromhex(ihex)
    I = {n: z3.BitVecVal(int.from_bytes(ib[off:off + nb], 'little'), 8 * nb) for n, off, nb in h.ins}
    if h.pre and not z3.is_true(z3.simplify(h.pre(I))):
        return []
    if kind != 'ok':
        if h.may_panic is not None and z3.is_true(z3.simplify(h.may_panic(I))):
            return []
        return ['panic (process aborted natively)']
    ob = bytes.fromhex(data)
    if h.native is not None:
        n = int.from_bytes(ob[:2], 'little')
        return h.native(I, ob[2:2 + n].decode('utf-8', 'replace'))
    O = {n: z3.BitVecVal(int.from_bytes(ob[off:off + nb], 'little'), 8 * nb) for n, off, nb in h.outs}
    bad = []
    for l, c in h.checks(I, O):
        v = z3.simplify(c)
        if not z3.is_true(v):
            bad.append(l)
    return bad


def dump_io(h, ihex, ohex=None):
    d = {}
    ib = bytes.fromhex(ihex)
    for n, off, nb in h.ins:
        d[n] = hex(int.from_bytes(ib[off:off + nb], 'little'))
    o = None
    if ohex is not None:
        o = {}
        ob = bytes.fromhex(ohex)
        for n, off, nb in h.outs:
            o[n] = hex(int.from_bytes(ob[off:off + nb], 'little'))
    return d, o
