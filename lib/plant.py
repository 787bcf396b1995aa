"""Development helper: confirms a planted bug in a scratch copy. plant.py ID [nocheck|nosuite]...

Needs a built copy of /repo in /tmp/mut/p (dependency files rewritten to that path)."""
import json
import os
import subprocess
import sys
import time
P = "/tmp/mut/p"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make():
    r = sh("LC_ALL=C.UTF-8 make -f /opt/vp/libfly.mk SOURCE_ROOT=%s -j8 all" % P)
    if r.returncode:
        print(r.stdout[-3000:])
        sys.exit("build failed")


def demo(d):
    t = time.time()
    try:
        r = sh("bash %s/demo.sh" % d, cwd=P, timeout=300)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    return rc, time.time() - t, out[-300:]


ident, opts = sys.argv[1], sys.argv[2:]
d = os.path.join(V, "seeded", ident)
prop = json.load(open(d + "/meta.json"))["property"]
sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (P, P))
make()
n = 1 if "once" in opts else 3
for _ in range(n):
    rc, t, out = demo(d)
    print("demo clean:", rc, "%.1fs" % t, out if rc else "")
    if rc:
        sys.exit("demo fails on the clean tree")
r = sh("git -C %s apply %s/patch.diff" % (P, d))
if r.returncode:
    sys.exit("patch does not apply: " + r.stdout)
try:
    make()
    for _ in range(n):
        rc, t, out = demo(d)
        print("demo patched:", rc, "%.1fs" % t, out)
        if not rc:
            sys.exit("demo passes with the patch")
    if "nosuite" not in opts:
        os.makedirs(P + "/_build/results", exist_ok=True)
        b = P + "/_build/results"
        sh("RES_OPTIONS='timeout:1 attempts:1' LC_ALL=C.UTF-8 python3 /opt/vp/run_tests.py %s/_build/libfly_unit_tests %s/lines.txt %s/log.txt; "
           "python3 /opt/vp/results.py /tmp/mut/res.json lines:%s/lines.txt" % (P, b, b, b))
        print(sh("python3 %s/lib/suite.py /tmp/mut/res.json" % V).stdout.strip())
    if "nocheck" not in opts:
        props = [o for o in opts if len(o) == 3] or [prop]
        for q in props:
            t = time.time()
            r = sh("python3 run.py check %s --tier quick" % q, cwd=V, env=dict(os.environ, SIM_REPO=P, VERIF_SEED="1", VERIF_TIER="quick"))
            print("check %s: exit %d %.0fs\n%s" % (q, r.returncode, time.time() - t, "\n".join(x for x in r.stdout.splitlines() if "VIOL" in x or "oracle" in x)[:1500] or r.stdout[-800:]))
finally:
    sh("git -C %s checkout -q -f FETCH_HEAD" % P)
