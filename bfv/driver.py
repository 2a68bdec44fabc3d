"""Runs one property: generate, build, encode, decide, replay, report."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import random
import shutil
import sys
import tempfile
import time
import traceback

from . import build, engine, ir
from .harness import prelude, module_src

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = {}


def log(*a):
    print(*a, flush=True)


def shard_text(group):
    return prelude(group[0][1].crate) + ''.join(module_src(k, d, hs) for k, d, hs in group)


def run_shard(idx):
    """compile one shard to IR and decide all its harnesses"""
    group = G['shards'][idx]
    b = G['builder']
    crate = group[0][1].crate
    out = {'results': [], 'compile_errors': [], 'rustc_s': 0.0, 'native': [], 'native_err': None}
    try:
        group = list(group)
        while group:
            t = time.time()
            rc, err, ll = b.ir('s%d' % idx, shard_text(group), crate=crate)
            out['rustc_s'] += time.time() - t
            if rc == 0:
                break
            # isolate the definitions that do not compile
            good = []
            for g in group:
                rc1, err1, _ = b.ir('s%d_one' % idx, shard_text([g]), crate=crate)
                if rc1 == 0:
                    good.append(g)
                else:
                    out['compile_errors'].append((g[0], err1[-3000:]))
            if len(good) == len(group):
                raise build.BuildError('shard fails to compile, its parts do not:\n' + err[-3000:])
            group = good
        if not group:
            return out
        with open(ll) as f:
            module = ir.Module(f.read())
        hs = [h for _, _, l in group for h in l]
        res = {}
        for h in hs:
            res[h.name] = engine.decide(module, h)
        # harnesses the first lowering leaves undecided: try other lowerings
        for lv in b.LEVELS[1:]:
            un = set(h.name for h in hs if res[h.name].status in ('unsupported', 'unknown'))
            if not un:
                break
            sub = [(k, d, [h for h in l if h.name in un]) for k, d, l in group]
            sub = [g for g in sub if g[2]]
            t = time.time()
            rc, err, ll = b.ir('s%d_%s' % (idx, lv), shard_text(sub), lv, crate)
            out['rustc_s'] += time.time() - t
            if rc:
                break
            with open(ll) as f:
                m2 = ir.Module(f.read())
            for h in hs:
                if h.name in un:
                    r = engine.decide(m2, h)
                    r.level = lv
                    if r.status not in ('unsupported', 'unknown'):
                        res[h.name] = r
        out['results'] = [res[h.name] for h in hs]
        # native agreement of the encoding on the witnesses
        if G['native']:
            t = time.time()
            rc, err, so = b.dylib('s%d' % idx, shard_text(group), False, crate)
            out['rustc_s'] += time.time() - t
            if rc:
                out['native_err'] = err[-2000:]
            else:
                ws = [h for h in hs if res[h.name].witness is not None]
                rr = engine.run_native(so, [(h.name, res[h.name].witness[0], h.osz) for h in ws])
                for h, x in zip(ws, rr):
                    exp = res[h.name].witness[1]
                    if h.sym_stub:
                        bad = engine.native_verdict(h, res[h.name].witness[0], x)
                        if bad and res[h.name].status == 'holds':
                            out['native'].append((h.name, bad, 'agreement', res[h.name].status))
                        continue
                    if x[0] != 'ok' or x[1] != exp:
                        out['native'].append((h.name, x, exp, res[h.name].status))
                out['nwit'] = len(ws)
    except Exception as e:
        out['error'] = ''.join(traceback.format_exception(e))[-4000:]
    return out


def make_shards(defs_h, n):
    """defs_h: list of (k, def, harness list); balanced by estimated cost"""
    tot = sum(cost(x) for x in defs_h)
    split = []
    for k, d, hs in defs_h:
        parts = min(len(hs), int(cost((k, d, hs)) / (tot / 24.0)) + 1)
        for i in range(parts):
            split.append((k, d, hs[i::parts]))
    items = sorted(split, key=lambda x: -cost(x))
    n = max(1, min(n, len(items)))
    bins = [[0.0, []] for _ in range(n)]
    for it in items:
        bmin = min(bins, key=lambda z: z[0])
        bmin[0] += cost(it)
        for j, (k, d, hs) in enumerate(bmin[1]):
            if k == it[0]:
                bmin[1][j] = (k, d, hs + it[2])
                break
        else:
            bmin[1].append(it)
    bins.sort(key=lambda b: -b[0])
    return [b[1] for b in bins if b[1]]


def cost(it):
    k, d, hs = it
    return sum(h.cost for h in hs) * (1 + d.N / 64.0) * (1.0 if d.is_int else 4.0) + 2


def load_known(pid):
    """known findings: lines of known_findings.jsonl"""
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                e = json.loads(line)
                if e.get('property') == pid and e.get('status') == 'open':
                    out.append(e)
    return out


def run(prop, tier, seed):
    t0 = time.time()
    pid = prop.id
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    base = os.environ.get('BFV_WORK') or os.path.join(VERIF, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=base)
    rc = 2
    try:
        rc = _run(prop, tier, seed, work, ev_path, t0)
    except build.BuildError as e:
        log('ERROR: ' + str(e))
        rc = 2
    finally:
        if not os.environ.get('BFV_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    return rc


def name_harnesses(groups):
    n = 0
    for k, d, hs in groups:
        for h in hs:
            h.name = 'h%d_%d' % (k, n)
            n += 1


def _run(prop, tier, seed, work, ev_path, t0):
    pid = prop.id
    groups = []
    for k, (d, hs) in enumerate(prop.harnesses(tier, seed)):
        if hs:
            groups.append((k, d, hs))
    name_harnesses(groups)
    nh = sum(len(h) for _, _, h in groups)
    b = build.Builder(work)
    t = time.time()
    b.build_crate()
    tb = time.time() - t
    # canary: the toolchain and the crate are usable at all
    rc, err, _ = b.ir('canary', prelude())
    if rc:
        raise build.BuildError('the harness prelude does not compile:\n' + err[-3000:])
    jobs = int(os.environ.get('BFV_JOBS', '8'))
    n = max(jobs, min(64, nh // 40 + 1))
    if any(h.split for _, _, hs in groups for h in hs):
        n = max(n, 5 * jobs)
    crates = sorted(set(d.crate for _, d, _ in groups), key=str)
    if len(crates) > 1:
        n = max(1, n // len(crates))
    shards = []
    for c in crates:
        b.build_crate(c)
        shards += make_shards([g for g in groups if g[1].crate == c], n)
    G.update(shards=shards, builder=b, native=os.environ.get('BFV_NATIVE', '1') == '1')
    ctx = mp.get_context('fork')
    outs = []
    with ctx.Pool(jobs) as pool:
        for o in pool.imap_unordered(run_shard, range(len(shards)), chunksize=1):
            outs.append(o)
    H = {h.name: (k, d, h) for k, d, hs in groups for h in hs}
    D = {k: (d, hs) for k, d, hs in groups}
    errors = []
    cex = []
    results = []
    comp = []
    undecided = []
    nwit = 0
    rustc_s = 0.0
    for o in outs:
        if o.get('error'):
            errors.append(o['error'])
        rustc_s += o['rustc_s']
        nwit += o.get('nwit', 0)
        if o['native_err']:
            errors.append('native build: ' + o['native_err'])
        comp += o['compile_errors']
        for r in o['results']:
            results.append(r)
            if r.status == 'cex':
                cex.append(r)
            elif r.status in ('unsupported', 'unknown', 'vacuous'):
                undecided.append('%s %s/%s: %s %s' % (r.name, r.dname, r.op, r.status, r.detail))
        for (nm, x, exp, stt) in o['native']:
            k, d, h = H[nm]
            errors.append('encoding disagrees with native run: %s %s/%s native=%s encoded=%s' %
                          (nm, d.name, h.op, x, exp))
    violations = []
    known_hits = []
    if cex:
        v, kn, er = replay(prop, b, H, cex, work)
        violations += v
        known_hits += kn
        errors += er
    for k, err in comp:
        violations.append(compile_violation(prop, D[k][0], err, b, shard_text([(k, D[k][0], D[k][1])])))
    holds = [r for r in results if r.status == 'holds']
    wall = time.time() - t0
    solver_s = sum(r.solver_s for r in results)
    # a few harnesses outside what the encoder reaches are reported, not fatal;
    # more than that means the check did not do its job
    limit = max(2, nh // 20)
    if len(undecided) > limit:
        errors += undecided
    asserts = sum(r.nchecks for r in results)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
        'wall_s': round(wall, 1),
        'coverage': {
            'programs': len(groups),
            'disagreements_checked': asserts,
            'samples': samples(prop, groups, results, H),
            'harnesses': nh,
            'harnesses_decided_hold': len(holds),
            'harnesses_undecided': len(undecided),
            'undecided': undecided[:20],
            'solver_queries': sum(r.queries for r in results),
            'solver_s': round(solver_s, 2),
            'encode_s': round(sum(r.encode_s for r in results), 2),
            'ir_instructions_executed_symbolically': sum(r.insts for r in results),
            'functions_encoded': op_counts(groups),
            'native_runs_agreeing_with_encoding': nwit,
            'solver': 'z3 %s (QF_BV)' % __import__('z3').get_version_string(),
            'bounds': prop.bounds(tier, groups),
            'encoded_from': 'LLVM IR emitted by rustc %s from the macro expansion of the current working tree of %s' %
                            (build.TOOLCHAIN, build.REPO),
            'build_s': round(tb, 1), 'rustc_s': round(rustc_s, 1),
        },
        'assumptions': ASSUME,
        'violations': len(violations),
        'violation_summaries': [v['summary'] for v in violations],
        'known_findings': [k['what'] for k in known_hits],
        'errors': errors[:20],
    }
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d definitions, %d harnesses, %d hold, %d undecided, %d queries, solver %.1fs, wall %.1fs' % (
        pid, tier, len(groups), nh, len(holds), len(undecided), ev['coverage']['solver_queries'], solver_s, wall))
    if os.environ.get('BFV_PROF'):
        for r in sorted(results, key=lambda r: -(r.solver_s + r.encode_s))[:25]:
            log('  prof %-12s %-30s enc %.1f sol %.1f q %d' % (r.dname, r.op, r.encode_s, r.solver_s, r.queries))
    for k in known_hits:
        log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if violations:
        for v in violations[:20]:
            log('  ' + v['summary'])
            log('VIOLATION property=%s replay=%s' % (pid, v['path']))
        return 1
    if errors:
        for e in errors[:20]:
            log('ERROR: ' + e)
        return 2
    if nh == 0:
        log('ERROR: nothing to decide')
        return 2
    return 0


ASSUME = [
    'rustc lowers the generated Rust code to LLVM IR faithfully (the IR the harnesses are decided on is compiled with '
    'overflow checks on; counterexamples and witnesses are re-run on native dev and release builds)',
    'the reference semantics in bfv/model.py and bfv/ops.py states the documented behaviour',
    'z3 is sound on QF_BV; the symbolic executor bfv/symex.py models the LLVM IR it accepts (checked on every harness '
    'against a native run of a solver-chosen witness)',
]


def norm_op(d, op):
    """operation name with field names abstracted"""
    w = op.replace('/', ' / ').split(' ')
    ids = sorted([f.ident for f in d.allfields], key=len, reverse=True)
    out = []
    for x in w:
        for i in ids:
            if x == i:
                x = '<field>'
                break
            if len(x) > len(i) and re.search(r'(^|_)%s($|_(inverted|to_default))' % re.escape(i), x) and i not in (
                    'bits', 'bytes', 'range', 'bit', 'defaults'):
                x = re.sub(r'(^|_)%s($|_(?=inverted|to_default))' % re.escape(i), r'\1<field>\2', x)
                break
        out.append(x)
    return ' '.join(out)


def op_counts(groups):
    """the generated functions the harnesses encode, and in how many harnesses"""
    c = {}
    for _, d, hs in groups:
        for h in hs:
            op = norm_op(d, h.op)
            c[op] = c.get(op, 0) + 1
    return dict(sorted(c.items()))


def samples(prop, groups, results, H):
    out = []
    R = sorted(results, key=lambda r: -r.nchecks)
    for r in R[:1] + R[len(R) // 3:len(R) // 3 + 1] + R[2 * len(R) // 3:2 * len(R) // 3 + 1]:
        k, d, h = H[r.name]
        out.append({'definition': d.rust(), 'operation': h.op, 'harness': h.rust(), 'verdict': r.status,
                    'assertions': r.nchecks, 'queries': r.queries, 'solver_s': round(r.solver_s, 3),
                    'encoded_instructions': r.insts,
                    'witness_input_hex': r.witness[0] if r.witness else None})
    return out


def replay_dir(pid):
    p = os.path.join(VERIF, 'replays', pid)
    os.makedirs(p, exist_ok=True)
    return p


def replay(prop, b, H, cex, work):
    """run every counterexample natively (dev and release build)"""
    violations, known, errors = [], [], []
    kf = load_known(prop.id)
    # one crate with all failing harnesses (per configuration of the crate under test)
    bycrate = {}
    for r in cex[:400]:
        k, d, h = H[r.name]
        bycrate.setdefault(d.crate, {}).setdefault(k, (k, d, []))[2].append(h)
    nat = {}
    for crate, byk in bycrate.items():
        text = shard_text(list(byk.values()))
        for rel in (False, True):
            rc, err, so = b.dylib('replay', text, rel, crate)
            if rc:
                errors.append('replay build failed: ' + err[-2000:])
                return violations, known, errors
            jobs = [(r.name, r.cex, H[r.name][2].osz) for r in cex[:400] if H[r.name][1].crate == crate]
            for (nm, ih, _), x in zip(jobs, engine.run_native(so, jobs)):
                nat.setdefault(nm, []).append(x)
    for r in cex[:400]:
        k, d, h = H[r.name]
        bad = []
        for prof, x in zip(('dev', 'release'), nat[r.name]):
            v = engine.native_verdict(h, r.cex, x)
            bad.append((prof, x, v))
        if not any(v for _, _, v in bad):
            errors.append('counterexample not confirmed natively: %s %s/%s %s input=%s native=%s' % (
                r.name, d.name, h.op, r.labels, r.cex, bad))
            continue
        hit = None
        for e in kf:
            if e['definition'] == d.name and e['op'] == h.op and prop.matches_known(e, h, r):
                hit = e
        if hit:
            if hit not in known:
                known.append(hit)
            continue
        ins, _ = engine.dump_io(h, r.cex)
        outs = {}
        for prof, x, v in bad:
            outs[prof] = {'outcome': x[0], 'outputs': engine.dump_io(h, r.cex, x[1])[1] if x[0] == 'ok' else x[1],
                          'violated': v}
        rec = {
            'property': prop.id, 'definition': d.name, 'operation': h.op, 'violated': r.labels,
            'inputs': ins, 'native': outs, 'input_hex': r.cex, 'output_size': h.osz, 'symbol': r.name,
            'definition_source': d.rust(), 'harness_source': h.rust(), 'crate': d.crate,
            'crate_source': prelude(d.crate) + module_src(k, d, [h]),
            'how': 'python3-vt /verif/check.py --replay <this file>: compiles crate_source against /repo with '
                   'overflow checks on and off, calls `symbol` with input_hex and prints the outputs',
        }
        hid = hashlib.sha1((d.rust() + h.rust() + r.cex).encode()).hexdigest()[:12]
        p = os.path.join(replay_dir(prop.id), hid + '.json')
        with open(p, 'w') as f:
            json.dump(rec, f, indent=1)
        summ = '%s / %s: %s with %s' % (d.name, h.op, '; '.join(r.labels[:3]), ins)
        violations.append({'summary': summ[:600], 'path': p})
    return violations, known, errors


def compile_violation(prop, d, err, b, text):
    hid = hashlib.sha1(text.encode()).hexdigest()[:12]
    p = os.path.join(replay_dir(prop.id), 'compile-' + hid + '.json')
    with open(p, 'w') as f:
        json.dump({'property': prop.id, 'definition': d.name, 'kind': 'a valid definition does not compile',
                   'definition_source': d.rust(), 'crate_source': text, 'compiler_output': err}, f, indent=1)
    return {'summary': 'definition %s (or the documented API on it) does not compile: %s' % (
        d.name, err.strip().split('\n')[0][:300]), 'path': p}
