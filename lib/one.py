"""Development helper: one UNIT SCENARIO SEED [TRACE]"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simrun
from props import UNITS
exe = build.Builder().unit(sys.argv[1], UNITS[sys.argv[1]])
tmp = tempfile.mkdtemp(prefix="libfly-verif.", dir="/dev/shm")
try:
    u = simrun.Unit(exe, tmp)
    r = u.one(simrun.Case(sys.argv[2], int(sys.argv[3])).text() + "random 1\n", int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    print(r.trace); print(r.cls, r.msg)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
