"""developer tool: dev.py PROP DEF OPSUBSTR  -> decide selected harnesses, keep the IR"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from bfv import props, build, driver, engine, ir
p, dn, op = sys.argv[1:4]
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
w = '/tmp/bfdev'
os.makedirs(w, exist_ok=True)
b = build.Builder(w)
b.build_crate()
groups = [(k, d, [h for h in hs if op in h.op]) for k, (d, hs) in enumerate(props.P[p].harnesses(tier, 1)) if d.name == dn]
driver.name_harnesses(groups)
rc, err, ll = b.ir('dev', driver.shard_text(groups))
if rc:
    print(err)
    sys.exit(1)
m = ir.Module(open(ll).read())
import traceback
engine.DEBUG = True
for k, d, hs in groups:
    print(d.rust())
    for h in hs:
        r = engine.decide(m, h)
        print(h.name, h.op, r.status, r.labels, r.detail, r.cex and engine.dump_io(h, r.cex)[0], 'enc %.2f sol %.2f q %d insts %d' % (r.encode_s, r.solver_s, r.queries, r.insts))
