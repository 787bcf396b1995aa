"""Development helper: soak UNIT RUNS SEED [SCENARIO,...]"""
import collections
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import simrun
from props import UNITS
unit, runs, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
exe = build.Builder().unit(unit, UNITS[unit])
tmp = tempfile.mkdtemp(prefix="libfly-verif.", dir="/dev/shm")
try:
    u = simrun.Unit(exe, tmp)
    sc = {s: 1 for s in (sys.argv[4].split(",") if len(sys.argv) > 4 else u.scenarios())}
    st = u.batch(sc, seed, runs, 3000, int(os.environ.get("W", "8")))
    names = u.scenarios()
    print("%d runs in %.1f s, %.0f sim s, distinct %d, faults %s" % (st["runs"], st["wall"], st["simtime"], st["distinct"], st["faults"]))
    print({"%s.%s" % (s, names[s][i] if i < len(names[s]) else i): n for (s, i), n in st["probes"].items()})
    for s in sc:
        print("most in a run of %s: %d accesses, %d steps, %d simulated ms, %d threads" % ((s,) + tuple(st["most"].get((s, k), 0) for k in range(4))))
    c = collections.defaultdict(list)
    for v in st["viols"]:
        c[(v[1], u.key(v[3], v[4], v[5]))].append(v)
    for k, vs in sorted(c.items(), key=lambda x: -len(x[1])):
        print(len(vs), k, "seed", vs[0][2], vs[0][6].strip()[:300])
        if os.environ.get("STK"):
            for pcs in (vs[0][4], vs[0][5]):
                for fn, loc in u.sym.frames(pcs)[:14]:
                    if "/sim/rt_" not in loc:
                        print("      ", simrun.short(fn)[-80:], loc)
                print("       --")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
