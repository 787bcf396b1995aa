#!/usr/bin/env python3
"""check PROP [--tier quick|thorough] | replay FILE | selftest | list"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import build
import simrun
from props import PROPS, UNITS

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == prop:
                    res.append(k)
    return res


def matches(k, scn, key, msg):
    import re
    if k.get("scenario") and k["scenario"] != scn:
        return False
    if not re.fullmatch(k["key"], key):
        return False
    return re.search(k.get("msg", ""), msg) is not None


def scratch_dir():
    root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="libfly-verif.", dir=root)


def error(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    tmp = scratch_dir()
    try:
        return check_in(prop, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(prop, tier, seed, cfg, tmp, t0):
    b = build.Builder()
    workers = min(8, os.cpu_count() or 4)
    units = {}
    for u in cfg["units"]:
        exe = b.unit(u, UNITS[u])
        d = os.path.join(tmp, u)
        os.makedirs(d)
        units[u] = simrun.Unit(exe, d)
    t_build = time.time() - t0
    budget = cfg[tier]
    total = {"runs": 0, "steps": 0, "accesses": 0, "switches": 0, "ops": 0, "nontrivial": 0, "simtime": 0.0,
             "faultruns": 0, "maxthreads": 0, "distinct": 0, "faults": {}, "probes": {}, "strategies": {}, "search_s": 0.0}
    samples, viols, hit_known = [], {}, {}
    known = known_findings(prop)
    det = {"checked": 0, "mismatches": 0}
    nunits = len(units)
    for u, unit in units.items():
        weights = {s: w for s, w in cfg["scenarios"].items()} if nunits == 1 else cfg["scenarios"][u]
        probe_names = unit.scenarios()
        rounds = 1 if tier == "quick" else 1000000
        spent, rnd = 0.0, 0
        while rnd < rounds and (tier == "quick" or spent < budget["seconds"] / nunits):
            runs = budget["runs"] if nunits == 1 else budget["runs"] // nunits
            st = unit.batch(weights, seed * 1000 + rnd, runs, min(budget["seconds"], 600), workers)
            rnd += 1
            spent += st["wall"]
            total["search_s"] += st["wall"]
            for k in ("runs", "steps", "accesses", "switches", "ops", "nontrivial", "simtime", "faultruns", "distinct"):
                total[k] += st.get(k, 0)
            total["maxthreads"] = max(total["maxthreads"], st.get("maxthreads", 0))
            for k in ("faults", "strategies"):
                for n, v in st[k].items():
                    total[k][n] = total[k].get(n, 0) + v
            for (s, i), v in st["probes"].items():
                names = probe_names.get(s, [])
                n = "%s.%s" % (s, names[i] if i < len(names) else "probe%d" % i)
                total["probes"][n] = total["probes"].get(n, 0) + v
            for s in weights:
                for n in probe_names.get(s, []):
                    total["probes"].setdefault("%s.%s" % (s, n), 0)
            for v in st["viols"]:
                idx, scn, sd, cls, stk, stk2, msg = v
                if cls.startswith("sim:"):
                    r = unit.one("scenario %s\nseed %d\nrandom 1\n" % (scn, sd))
                    print(simrun.describe(unit, r, prop, cls))
                    error("the simulator gave up on scenario %s seed %d: %s %s" % (scn, sd, cls, msg))
                key = unit.key(cls, stk, stk2)
                k = next((k for k in known if matches(k, scn, key, msg)), None)
                if k is not None:
                    hit_known[k["what"]] = hit_known.get(k["what"], 0) + 1
                    continue
                viols.setdefault((u, key), []).append(v)
            if viols:
                break
        # one seed is one execution: run some seeds again, in other processes
        scn0 = list(weights)
        for i in range(4):
            scn = scn0[i % len(scn0)]
            text = "scenario %s\nseed %d\nrandom 1\n" % (scn, seed * 7919 + i)
            r1, r2 = unit.one(text), unit.one(text)
            det["checked"] += 1
            if (r1.hash, r1.cls, r1.notes) != (r2.hash, r2.cls, r2.notes):
                det["mismatches"] += 1
            if i < 2:
                samples.append({"scenario": scn, "seed": r1.seed, "operations": [t for _, en, t in r1.ops if en][:12],
                                "parameters": {n: v for _, n, _, _, v in r1.params}, "steps": r1.steps,
                                "switches": r1.switches, "threads": r1.threads, "simulated_s": r1.simtime / 1e9,
                                "faults": {simrun.FAULTS[k]: n for k, n in r1.faults.items()}, "schedule_hash": r1.hash})
    reports = []
    irrepro = []
    if viols:
        limit = 75 if tier == "quick" else 600
        end = time.time() + limit
        # cheapest first: most frequent classes are reported first
        for (u, key), vs in sorted(viols.items(), key=lambda kv: -len(kv[1]))[:4]:
            if reports and time.time() > end - 15:
                break
            rep = report(prop, units[u], key, vs, max(10, min(40, end - time.time())), workers, seed, len(reports))
            (reports if rep else irrepro).append(rep or key)
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": total["distinct"],
            "rule": "One evaluation is one seeded simulated run of a generated workload (operations, parameters, faults and "
                    "schedule all drawn from the seed). A run is non-trivial if the simulator switched threads at least twice or "
                    "injected at least one fault; distinct counts different hashes over the sequence of scheduling, timing and "
                    "fault decisions and synchronisation events.",
            "samples": samples,
            "runs_per_hour": int(total["runs"] / max(total["search_s"], 0.001) * 3600),
            "seeds_per_hour": int(total["runs"] / max(total["search_s"], 0.001) * 3600),
            "simulated_seconds": round(total["simtime"], 3), "scheduler_steps": total["steps"],
            "instrumented_memory_accesses": total["accesses"], "thread_switches": total["switches"],
            "workload_operations": total["ops"], "nontrivial_runs": total["nontrivial"],
            "runs_with_faults": total["faultruns"], "faults_injected": total["faults"], "rare_conditions_reached": total["probes"],
            "strategies": total["strategies"], "max_threads": total["maxthreads"],
            "determinism": det, "build_s": round(t_build, 1), "search_s": round(total["search_s"], 1),
            "real_components": cfg["real"], "stubbed_components": cfg["stub"],
            "known_findings_hit": hit_known,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(reports),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s: %d simulated runs (%d distinct schedules) in %.1f s (+%.1f s build), %.0f simulated s, faults: %s" % (
        prop, total["runs"], total["distinct"], total["search_s"], t_build, total["simtime"],
        ", ".join("%s=%d" % kv for kv in sorted(total["faults"].items())) or "none"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for path, key, msg in reports:
        print("%s: %s" % (key, msg.strip()[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    build.prune()
    if reports:
        return 1
    if irrepro:
        error("violations that do not replay: %s" % irrepro)
    if det["mismatches"]:
        error("the same seed gave different runs: %s" % det)
    return 0


def report(prop, unit, key, vs, seconds, workers, seed, n):
    for idx, scn, sd, cls, stk, stk2, msg in vs[:5]:
        rnd_text = "scenario %s\nseed %d\nrandom 1\n" % (scn, sd)
        a, c = unit.one(rnd_text), unit.one(rnd_text)
        if a.hash != c.hash or unit.rkey(a) != unit.rkey(c) or unit.rkey(a) != key:
            continue
        text, res = rnd_text, a
        case = simrun.Case(scn, sd, {}, (), a.devs)
        if not a.overflow and unit.rkey(unit.one(case.text())) == key:
            m = simrun.Minimiser(unit, key, seconds, workers)
            try:
                small = m.run(case, a)
            finally:
                m.close()
            r1, r2 = unit.one(small.text()), unit.one(small.text())
            if unit.rkey(r1) == key and unit.rkey(r2) == key and r1.hash == r2.hash:
                text, res = small.text(), r1
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.replay" % (prop, seed, n))
        with open(path, "w") as f:
            f.write("# unit %s\n" % os.path.basename(unit.tmp))
            f.write(simrun.describe(unit, res, prop, key))
            f.write(text)
        return path, key, res.msg
    return None


def replay(path, trace):
    unit_name = next(l.split()[2] for l in open(path) if l.startswith("# unit "))
    want = next((l[len("# violation "):].strip() for l in open(path) if l.startswith("# violation ")), "")
    text = "".join(l for l in open(path) if not l.startswith("#"))
    exe = build.Builder().unit(unit_name, UNITS[unit_name])
    tmp = scratch_dir()
    try:
        d = os.path.join(tmp, unit_name)
        os.makedirs(d)
        u = simrun.Unit(exe, d)
        r = u.one(text, trace)
        if trace:
            print(r.trace)
        print(simrun.describe(u, r, "-", u.rkey(r) or "none"))
        print("reproduced" if u.rkey(r) == want else "NOT reproduced (expected %s)" % want)
        return 0 if u.rkey(r) == want else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def selftest(unit_names, count, seed):
    """Determinism: every seed twice, at two worker counts, full decision hashes compared."""
    bad = 0
    for name in unit_names:
        exe = build.Builder().unit(name, UNITS[name])
        tmp = scratch_dir()
        try:
            d1, d2 = os.path.join(tmp, name), os.path.join(tmp, name + "2")
            os.makedirs(d1), os.makedirs(d2)
            u1, u2 = simrun.Unit(exe, d1), simrun.Unit(exe, d2)
            weights = {s: 1 for s in u1.scenarios()}
            a = u1.batch(weights, seed, count, 3000, 8)
            c = u2.batch(weights, seed, count, 3000, 5)
            import struct
            ha, hc = [], []
            for d, h, w in ((d1, ha, 8), (d2, hc, 5)):
                for k in range(w):
                    data = open("%s/batch.%d.hash" % (d, k), "rb").read()
                    h.extend(struct.unpack("<%dQ" % (len(data) // 8), data))
            same = sorted(ha) == sorted(hc) and [v[:4] for v in a["viols"]] == [v[:4] for v in c["viols"]]
            diff = len(set(ha) ^ set(hc))
            print("%s: %d runs, steps %d / %d, accesses %d / %d, %s" % (name, a["runs"], a["steps"], c["steps"], a["accesses"],
                                                                    c["accesses"], "identical" if same and a["accesses"] == c["accesses"] else "DIFFERENT (%d hashes)" % diff))
            bad += not same
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    try:
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return check(a[1], tier)
        if a[0] == "replay":
            return replay(a[1], int(a[2]) if len(a) > 2 else 0)
        if a[0] == "selftest":
            names = a[3].split(",") if len(a) > 3 else list(UNITS)
            return selftest(names, int(a[1]) if len(a) > 1 else 500, int(a[2]) if len(a) > 2 else 1)
        if a[0] == "setup":
            build.lib_sources()
            return 0
        if a[0] == "list":
            for p in PROPS:
                print(p)
            return 0
    except build.BuildError as e:
        error("build failed:\n%s" % e)
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
