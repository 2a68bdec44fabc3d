"""Decides C20: runs the templates of templates.py through the symbolic
execution of the macro (macrox.py), replays what it finds on the real crate."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import z3

from . import build, conc, driver, macrox, templates
from .harness import prelude

G = {}
# seconds: all exploring, and one template
BUDGET = {'quick': (540, 300), 'thorough': (9000, 1500)}


def job(i):
    """explore one template"""
    res = []

    def go():
        t = G['T'][i]
        E = G['E']
        st = dict(queries=0, unknown=0, asserts=0, paths=0, branches=0, solver_s=0.0, noconst=set(), sample=[])
        t0 = time.time()
        found, err = [], ''
        left = G['end'] - t0
        if left < 5:
            st['incomplete'] = 'not reached'
        else:
            E.encoded = set()
            try:
                found = macrox.explore(E, t, 100000, t0 + min(left, G['per']), st)
            except Exception:
                err = traceback.format_exc(limit=-4)[-1500:]
        st['encoded'] = sorted(n for n in E.encoded)
        res.append((i, found, st, time.time() - t0, err))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return res[0]


def native(exe, t, vals):
    A, _ = t.text(t.args, vals)
    B, _ = t.text(t.item, vals)
    r = subprocess.run([exe, A.decode(), B.decode(), str(t.kind), ' '.join(t.consts)], capture_output=True, text=True)
    if r.returncode:
        return 2, []
    m = re.match(r'(\d+) \[(.*)\]', r.stdout)
    return int(m.group(1)), [int(x) for x in m.group(2).split(',') if x.strip()]


def definition(t, vals):
    A, _ = t.text(t.args, vals)
    B, _ = t.text(t.item, vals)
    attr = 'bitfield' if t.kind == 0 else 'bitflag'
    return '#[%s(%s)]\npub %s\n' % (attr, A.decode(), B.decode())


def expected(t, vals):
    """the documented verdict on one text"""
    v = macrox.V(t)
    accept, free, consts = t.want(v)
    sub = [(x, z3.BitVecVal(vals[x.decl().name()], 8)) for l in t.parts.values() for x, _ in l]
    ev = lambda e: z3.simplify(z3.substitute(e, *sub))
    return z3.is_true(ev(accept)), z3.is_true(ev(free)), [(n, ev(e).as_long()) for n, e in consts]


def replay_one(b, t, kind, vals, n):
    """the definition on the real crate: (confirmed, what happened, text compiled)"""
    d = definition(t, vals)
    text = prelude() + d
    if kind.startswith('constants'):
        for nm, v in expected(t, vals)[2]:
            if v < 1 << 63:
                text += 'const _: () = assert!(X::%s as u128 == %d);\n' % (nm, v)
    src = os.path.join(b.work, 'rp%d.rs' % n)
    with open(src, 'w') as f:
        f.write(text)
    rc, err = b.rustc(src, os.path.join(b.work, 'librp%d.rmeta' % n), ['--crate-type', 'lib', '--emit=metadata'])
    if kind == 'accepted':
        ok = rc == 0
        what = 'compiles, but is not a definition within the documented rules'
    elif kind == 'rejected':
        ok = rc != 0
        what = 'is within the documented rules, but does not compile: ' + first_error(err)
    elif kind == 'panicked':
        ok = rc != 0 and ('panicked' in err or 'unexpected error' in err)
        what = 'makes the macro panic: ' + first_error(err)
    else:
        ok = rc != 0
        what = 'compiles, but its layout constants are not the documented %s' % expected(t, vals)[2]
    return ok, what if ok else '%s: rustc %s: %s' % (kind, 'rejects it' if rc else 'accepts it', first_error(err)), text


def first_error(err):
    l = [x for x in err.splitlines() if 'error' in x]
    return (l[0] if l else err.strip().split('\n')[0])[:300]


def run(tier, seed):
    t0 = time.time()
    base = os.environ.get('BFV_WORK') or os.path.join(driver.VERIF, '.work')
    os.makedirs(base, exist_ok=True)
    os.makedirs(os.path.join(driver.VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='C20-', dir=base)
    try:
        return _run(tier, seed, work, t0)
    except build.BuildError as e:
        driver.log('ERROR: ' + str(e))
        return 2
    finally:
        if not os.environ.get('BFV_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def _run(tier, seed, work, t0):
    pid = 'C20'
    log = driver.log
    sys.setrecursionlimit(100000)
    threading.stack_size(256 << 20)
    bb = {}

    def both():
        b = build.Builder(work)
        b.build_crate()
        bb['b'] = b
    th = threading.Thread(target=lambda: guard(both, bb))
    th.start()
    mx = macrox.prepare(work)
    th.join()
    if 'error' in bb:
        raise bb['error']
    b = bb['b']
    rc, err, _ = b.ir('canary', prelude())
    if rc:
        raise build.BuildError('the harness prelude does not compile:\n' + err[-3000:])
    tb = time.time() - t0
    with open(mx.ll) as f:
        E = conc.Engine(f.read())
    TS = templates.templates(tier)
    only = os.environ.get('BFV_ONLY')
    if only:
        TS = [t for t in TS if only in t.name]
    total, per = BUDGET[tier]
    G.update(T=TS, E=E, end=time.time() + total, per=per)
    order = sorted(range(len(TS)), key=lambda i: -TS[i].cost)
    outs = []
    with mp.get_context('fork').Pool(int(os.environ.get('BFV_JOBS', '8')), maxtasksperchild=8) as pool:
        for o in pool.imap_unordered(job, order, chunksize=1):
            outs.append(o)
            if os.environ.get('BFV_PROF'):
                i, f, st, dt, err = o
                log('  prof %-50s %6.1fs paths %d q %d sol %.1f %s %s %s' % (
                    TS[i].name, dt, st['paths'], st['queries'], st['solver_s'], st.get('codes'), len(f), err[-200:]))
    undecided, errors, notes, violations, known = [], [], [], [], []
    kf = driver.load_known(pid)
    nnat = nrp = 0
    for i, found, st, dt, err in sorted(outs):
        t = TS[i]
        if err:
            undecided.append('%s: %s' % (t.name, err.strip().split('\n')[-1][:200]))
        elif st.get('incomplete'):
            undecided.append('%s: %s' % (t.name, st['incomplete']))
        elif st['unknown']:
            undecided.append('%s: %d queries unknown' % (t.name, st['unknown']))
        # the executor and the natively compiled macro agree
        for vals, code, consts in st['sample']:
            c2, k2 = native(mx.exe, t, vals)
            nnat += 1
            if c2 != code or (code == 0 and k2 != consts):
                errors.append('encoding disagrees with the native run: %s %s encoded %s %s native %s %s' % (
                    t.name, definition(t, vals), code, consts, c2, k2))
        seen = set()
        for kind, vals in found:
            if kind in seen:
                continue
            if nrp > 60:
                break
            nrp += 1
            ok, what, text = replay_one(b, t, kind, vals, nrp)
            if not ok:
                if kind == 'accepted':
                    notes.append('left to rustc: %s: %s' % (definition(t, vals), what))
                else:
                    errors.append('not confirmed on the real crate: %s: %s' % (definition(t, vals), what))
                continue
            seen.add(kind)
            hit = [e for e in kf if e['template'] == t.name and e['kind'] == kind]
            if hit:
                if hit[0] not in known:
                    known.append(hit[0])
                continue
            h = hashlib.sha1((t.name + kind + text).encode()).hexdigest()[:12]
            p = os.path.join(driver.replay_dir(pid), h + '.json')
            with open(p, 'w') as f:
                json.dump({'property': pid, 'template': t.name, 'kind': kind, 'what': what,
                           'definition_source': definition(t, vals), 'crate_source': text,
                           'how': 'python3-vt /verif/check.py --replay <this file> compiles crate_source against /repo'},
                          f, indent=1)
            violations.append(('%s: `%s` %s' % (t.name, ' '.join(definition(t, vals).split()), what), p))
    done = [o for o in outs if not o[4] and not o[2].get('incomplete') and not o[2]['unknown']]
    if len(undecided) > len(TS) // 3:
        errors += undecided
    enc = set()
    for o in outs:
        enc |= set(o[2]['encoded'])
    own = demangle(enc)
    tot = lambda k: sum(o[2][k] for o in outs)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 1),
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('branches'),
            'traces_validated_against_impl': nnat,
            'samples': [{'template': TS[i].name, 'definition_schema': schema(TS[i]), 'paths': st['paths'],
                         'paths_by_outcome': {'accepted compile_error panic not_tokens'.split()[c]: n
                                              for c, n in st.get('codes', {}).items()},
                         'queries': st['queries'], 'solver_s': round(st['solver_s'], 2), 'assertions': st['asserts']}
                        for i, _, st, _, _ in sorted(outs)[::max(1, len(outs) // 6)]],
            'templates': len(TS), 'templates_fully_explored': len(done), 'undecided': undecided[:40],
            'texts_covered': str(sum(size(TS[o[0]]) for o in done)),
            'solver_queries': tot('queries'), 'assertions_discharged': tot('asserts'), 'solver_s': round(tot('solver_s'), 1),
            'solver': 'z3 %s (QF_BV)' % z3.get_version_string(),
            'functions_encoded': own, 'llvm_functions_encoded': len(enc),
            'left_to_rustc': notes[:10], 'counterexamples_replayed': nrp,
            'bounds': {'texts': 'every value of the symbolic characters of each template (templates.py): up to three digits '
                                'per width, up to five significant digits (12 binary) per default, two digits around the '
                                'limits of 64- and 128-bit types and of 32-bit counts, argument words of fixed length',
                       'fields': 'one to four', 'loops': 'no unrolling bound: every path runs to its end',
                       'outside': 'definitions that do not match a template; what rustc itself rejects in the generated '
                                  'code; the wording of the messages'},
            'encoded_from': 'LLVM IR emitted by rustc %s from %s/bitfields_impl/src of the current working tree with '
                            'syn, quote and proc-macro2 as locked, proc_macro replaced by proc_macro2' %
                            (build.TOOLCHAIN, build.REPO),
            'build_s': round(tb, 1),
        },
        'assumptions': ['proc_macro2\'s own lexer agrees with rustc\'s on the templates',
                        'the documented rules are as written in templates.py',
                        'z3 is sound on QF_BV; conc.py models the LLVM IR it accepts (sampled paths of every template are '
                        're-run on the natively compiled macro)'],
        'violations': len(violations), 'violation_summaries': [v[0] for v in violations],
        'known_findings': [k['what'] for k in known], 'errors': errors[:20],
    }
    with open(os.path.join(driver.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d templates, %d fully explored, %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs' % (
        pid, tier, len(TS), len(done), tot('paths'), tot('asserts'), tot('queries'), tot('solver_s'), wall))
    for u in undecided:
        log('  undecided: ' + u)
    for k in known:
        log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if violations:
        for s, p in violations[:20]:
            log('  ' + s[:600])
            log('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        for e in errors[:20]:
            log('ERROR: ' + e)
        return 2
    return 0


def guard(f, d):
    try:
        f()
    except Exception as e:
        d['error'] = e


def schema(t):
    s = lambda ps: ''.join(p if isinstance(p, str) else '<%s: %d of [%s]>' % (p.name, p.n, macrox.S.CLS[p.cls]) for p in ps)
    return '#[%s(%s)] %s' % ('bitfield' if t.kind == 0 else 'bitflag', s(t.args), s(t.item))


def size(t):
    n = 1
    for p in t.args + t.item:
        if isinstance(p, macrox.S):
            n *= len(macrox.S.CLS[p.cls]) ** p.n
    return n


def demangle(names):
    """functions of the macro crate among the encoded ones, readable where a demangler is installed"""
    l = sorted(n.strip('@"') for n in names if '2mx' in n)
    for tool in ('c++filt', 'llvm-cxxfilt-18', 'llvm-cxxfilt'):
        if shutil.which(tool):
            r = subprocess.run([tool], input='\n'.join(l), capture_output=True, text=True)
            if r.returncode == 0:
                l = r.stdout.split('\n')
                break
    return sorted(set(x for x in l if re.match(r'<?(?:<?impl )?<?mx::|<?mx\[|_R', x)))
