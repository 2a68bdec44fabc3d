#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decide one property
   check.py --replay <file>              re-run a recorded counterexample"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def replay(path):
    import shutil
    import tempfile
    from bfv import build, engine
    rec = json.load(open(path))
    base = os.environ.get('BFV_WORK') or os.path.join(os.path.dirname(os.path.abspath(__file__)), '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay-', dir=base)
    try:
        b = build.Builder(work)
        crate = rec.get('crate') and (rec['crate'][0], tuple(rec['crate'][1]))
        b.build_crate(crate)
        for rel in (False, True):
            rc, err, so = b.dylib('replay', rec['crate_source'], rel, crate)
            if rc:
                print('does not compile:\n' + err)
                return 1
            if 'symbol' in rec:
                x = engine.run_native(so, [(rec['symbol'], rec['input_hex'], rec['output_size'])])[0]
                print('release' if rel else 'dev', x)
        for k in ('definition_source', 'harness_source', 'operation', 'inputs', 'violated', 'native'):
            if k in rec:
                v = rec[k]
                print('%s: %s' % (k, v if isinstance(v, str) else json.dumps(v)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if pid == 'C20':
        from bfv import macrorun
        return macrorun.run(tier, seed)
    from bfv import driver, props
    if pid not in props.P:
        print('unknown property', pid)
        return 2
    return driver.run(props.P[pid], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
