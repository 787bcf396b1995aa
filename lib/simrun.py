"""Runs batches, verifies, minimises and reports violations."""
import concurrent.futures as cf
import os
import queue
import re
import shutil
import struct
import subprocess
import tempfile
import threading
import time

FAULTS = ["none", "time_jump", "stall", "spurious_wakeup", "clock_step", "open_fail", "read_eio", "read_short", "eintr",
          "write_enospc", "write_short", "write_eio", "close_fail", "unlink_fail", "poll_delay", "poll_fail", "read_eagain",
          "event_split", "watch_fail", "net_delay", "net_partial", "net_eagain", "net_reset", "net_drop", "net_dup",
          "net_reorder", "net_refuse", "net_err", "select_spurious", "sysinfo_fail", "thread_fail", "signal", "user0", "user1",
          "user2", "user3"]
STRATEGIES = ["random_walk", "pct", "random_walk_memory_accesses", "pct_memory_accesses", "serial", "s5", "s6", "s7"]


class Result:
    def __init__(self, text):
        self.params, self.ops, self.faults, self.devs, self.probes = [], [], {}, [], {}
        self.cls = self.msg = self.hash = ""
        self.finished = 0
        self.overflow = 0
        self.stk, self.stk2, self.notes = [], [], ""
        self.steps = self.switches = self.simtime = self.threads = self.strategy = 0
        head, _, self.notes = text.partition("\nnotes\n")
        for line in head.split("\n"):
            w, _, rest = line.partition(" ")
            if w == "scenario": self.scenario = rest
            elif w == "seed": self.seed = int(rest)
            elif w == "finished": self.finished = int(rest)
            elif w == "cls": self.cls = rest.strip()
            elif w == "msg": self.msg = rest
            elif w == "hash": self.hash = rest
            elif w in ("steps", "switches", "simtime", "threads", "strategy", "overflow"): setattr(self, w, int(rest))
            elif w == "param":
                i, n, lo, hi, v = rest.split()
                self.params.append((int(i), n, int(lo), int(hi), int(v)))
            elif w == "op":
                i, en, t = rest.split(" ", 2)
                self.ops.append((int(i), int(en), t))
            elif w == "fault":
                k, n = rest.split()
                self.faults[int(k)] = int(n)
            elif w == "probe":
                k, n = rest.split()
                self.probes[int(k)] = int(n)
            elif w == "stk": self.stk = [int(x, 16) for x in rest.split()]
            elif w == "stk2": self.stk2 = [int(x, 16) for x in rest.split()]
            elif w == "dev": self.devs.append(tuple(int(x) for x in rest.split()))


class Symboliser:
    def __init__(self, exe):
        self.exe, self.cache = exe, {}

    def load(self, pcs):
        need = [p for p in set(pcs) if p and p not in self.cache]
        if not need:
            return
        inp = "\n".join("%x" % (p - 1) for p in need) + "\n"
        out = subprocess.run(["addr2line", "-f", "-C", "-i", "-a", "-e", self.exe], input=inp, text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.split("\n")
        cur, frames, order = None, {}, iter(need)
        i = 0
        while i < len(out):
            if out[i].startswith("0x"):
                cur = next(order)
                frames[cur] = []
                i += 1
                continue
            if cur is not None and i + 1 < len(out):
                frames[cur].append((out[i], out[i + 1]))
                i += 2
            else:
                i += 1
        for p in need:
            self.cache[p] = frames.get(p) or [("??", "??")]

    def frames(self, pcs):
        self.load(pcs)
        res = []
        for p in pcs:
            res += self.cache.get(p, [("??", "??")])
        return res

    @staticmethod
    def interesting(fr):
        return "/fly/" in fr[1] or "/scen/" in fr[1]

    def top(self, pcs):
        """Innermost frame inside the library or the workload."""
        for fr in self.frames(pcs):
            if self.interesting(fr):
                return fr
        fs = self.frames(pcs)
        return fs[0] if fs else ("??", "??")


def short(fn):
    fn = re.sub(r"\[abi:[^\]]*\]", "", fn)
    d, out = 0, []
    for ch in fn:           # drop template arguments and parameter lists
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        elif d == 0:
            out.append(ch)
    return re.sub(r"\s+", " ", "".join(out)).strip()[-120:]


class Unit:
    def __init__(self, exe, tmp):
        self.exe, self.tmp = exe, tmp
        self.sym = Symboliser(exe)

    def key(self, cls, stk, stk2):
        """A violation's identity: class plus the functions involved, not addresses."""
        kind = cls.split(":")[0]
        if kind == "race":
            m = re.match(r"race:([0-9a-f]+):([0-9a-f]+)", cls)
            a, b = int(m.group(1), 16), int(m.group(2), 16)
            # stk[0] / stk2[0] are the accesses themselves
            fa = short(self.sym.top([a] + list(stk))[0])
            fb = short(self.sym.top([b] + list(stk2))[0])
            return "race:" + "|".join(sorted([fa, fb]))
        if kind in ("memory", "crash"):
            return cls + "@" + short(self.sym.top(stk)[0])
        return cls

    def scenarios(self):
        out = subprocess.run([self.exe, "list"], text=True, stdout=subprocess.PIPE).stdout
        res = {}
        for line in out.split("\n"):
            w = line.split()
            if w:
                res[w[0]] = w[2:]
        return res

    def one(self, replay_text, trace=0):
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".in", delete=False)
        f.write(replay_text)
        f.close()
        out = f.name + ".out"
        p = subprocess.run([self.exe, "one", f.name, out] + ([str(trace)] if trace else []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        r = Result(open(out, errors="replace").read())
        r.trace = p.stdout
        os.unlink(f.name)
        os.unlink(out)
        return r

    def rkey(self, r):
        return self.key(r.cls, r.stk, r.stk2) if r.finished == 2 else ""

    def batch(self, weights, base_seed, runs, seconds, workers):
        pre = os.path.join(self.tmp, "batch")
        for f in os.listdir(self.tmp):
            if f.startswith("batch."):
                os.unlink(os.path.join(self.tmp, f))
        spec = ",".join("%s:%d" % (k, v) for k, v in weights.items())
        t0 = time.time()
        p = subprocess.run([self.exe, "batch", spec, str(base_seed), str(runs), str(workers), str(seconds), pre],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise RuntimeError("batch failed: %d %s" % (p.returncode, p.stdout[-2000:]))
        st = {"runs": 0, "faults": {}, "probes": {}, "strategies": {}, "most": {}, "viols": [], "wall": time.time() - t0}
        hashes = set()
        for w in range(workers):
            text = open("%s.%d.txt" % (pre, w), errors="replace").read().split("\n")
            if "done" not in text:
                raise RuntimeError("worker %d did not finish" % w)
            for line in text:
                f = line.split()
                if not f: continue
                if f[0] == "stats":
                    for k, v in zip(f[1::2], f[2::2]):
                        if k == "maxthreads":
                            st[k] = max(st.get(k, 0), int(v))
                        else:
                            st[k] = st.get(k, 0) + (float(v) if k == "simtime" else int(v))
                elif f[0] == "fault":
                    n = FAULTS[int(f[1])]
                    st["faults"][n] = st["faults"].get(n, 0) + int(f[2])
                elif f[0] == "probe":
                    # probe SCENARIO INDEX COUNT
                    k = (f[1], int(f[2]))
                    st["probes"][k] = st["probes"].get(k, 0) + int(f[3])
                elif f[0] == "most":
                    k = (f[1], int(f[2]))
                    st["most"][k] = max(st["most"].get(k, 0), int(f[3]))
                elif f[0] == "strat":
                    n = STRATEGIES[int(f[1])]
                    st["strategies"][n] = st["strategies"].get(n, 0) + int(f[2])
                elif f[0] == "viol":
                    _, idx, scn, seed, rest = line.split(" ", 4)
                    cls, stk, stk2, msg = rest.split("|", 3)
                    st["viols"].append((int(idx), scn, int(seed), cls, [int(x, 16) for x in stk.split()],
                                        [int(x, 16) for x in stk2.split()], msg))
            data = open("%s.%d.hash" % (pre, w), "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))
        st["viols"].sort()
        st["distinct"] = len(hashes)
        return st


class Server:
    def __init__(self, exe, tmp, k):
        self.p = subprocess.Popen([exe, "server", str(k)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)
        self.f = os.path.join(tmp, "srv%d.in" % k)
        self.o = os.path.join(tmp, "srv%d.out" % k)

    def run(self, text):
        with open(self.f, "w") as f:
            f.write(text)
        self.p.stdin.write("%s %s\n" % (self.f, self.o))
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("simulation server died")
            if line == "ok\n":
                return Result(open(self.o, errors="replace").read())
            if line == "error\n":
                raise RuntimeError("bad replay file")

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


class Case:
    """A replayable case: parameters, disabled operations and deviations from the default schedule."""

    def __init__(self, scenario, seed, params=None, off=(), devs=()):
        self.scenario, self.seed = scenario, seed
        self.params = dict(params or {})
        self.off = frozenset(off)
        self.devs = list(devs)

    def text(self):
        l = ["scenario " + self.scenario, "seed %d" % self.seed]
        l += ["param %d %d" % kv for kv in sorted(self.params.items())]
        l += ["opoff %d" % i for i in sorted(self.off)]
        l += ["dev %d %d %d %d" % d for d in self.devs]
        return "\n".join(l) + "\n"

    def size(self):
        return (-len(self.off), len(self.devs))


class Minimiser:
    def __init__(self, unit, key, seconds, workers):
        self.unit, self.key = unit, key
        self.deadline = time.time() + seconds
        self.tried = 0
        self.servers = queue.Queue()
        self.all = [Server(unit.exe, unit.tmp, k) for k in range(workers)]
        for s in self.all:
            self.servers.put(s)
        self.pool = cf.ThreadPoolExecutor(max_workers=workers)
        self.n = workers
        self.lock = threading.Lock()

    def close(self):
        self.pool.shutdown()
        for s in self.all:
            s.close()

    def fails(self, case):
        if time.time() > self.deadline:
            return None
        s = self.servers.get()
        try:
            r = s.run(case.text())
        finally:
            self.servers.put(s)
        with self.lock:
            self.tried += 1
            ok = r.finished == 2 and self.unit.rkey(r) == self.key
        return r if ok else None

    def first(self, cases):
        """The first of the cases (in order) that still fails."""
        for i in range(0, len(cases), self.n):
            res = list(self.pool.map(self.fails, cases[i:i + self.n]))
            for c, r in zip(cases[i:i + self.n], res):
                if r:
                    return c
            if time.time() > self.deadline:
                return None
        return None

    def reduce_list(self, items, make, case):
        """ddmin by complement; returns (items, case)."""
        n = 2
        cur = list(items)
        if cur:
            c = make([])
            if self.fails(c):
                return [], c
        while len(cur) >= 2 and time.time() < self.deadline:
            chunk = max(1, len(cur) // n)
            cands = []
            for i in range(0, len(cur), chunk):
                cands.append(cur[:i] + cur[i + chunk:])
            found = None
            made = [make(c) for c in cands]
            hit = self.first(made)
            if hit is not None:
                found = cands[made.index(hit)]
            if found is not None:
                cur, case = found, hit
                n = max(2, n - 1)
            else:
                if chunk == 1:
                    break
                n = min(len(cur), n * 2)
        return cur, case

    def run(self, case, res):
        for _ in range(3):
            before = case.size()
            params = dict(case.params)
            nops = [i for i, en, _ in res.ops if i not in case.off]

            def with_ops(keep, base=None):
                b = base or case
                alln = {i for i, _, _ in res.ops}
                return Case(b.scenario, b.seed, b.params, alln - set(keep), b.devs)
            base = case
            _, case = self.reduce_list(nops, lambda keep: with_ops(keep, base), case)
            base2 = case
            _, case = self.reduce_list(case.devs, lambda d: Case(base2.scenario, base2.seed, base2.params, base2.off, d), case)
            # parameters towards their lower bound
            for i, name, lo, hi, v in res.params:
                cur = case.params.get(i, v)
                for cand in sorted({lo, (lo + cur) // 2}):
                    if cand < cur:
                        c = Case(case.scenario, case.seed, {**case.params, i: cand}, case.off, case.devs)
                        r = self.fails(c)
                        if r and len(r.ops) <= len(res.ops):
                            case = c
                            break
            # smaller values in the deviations
            r = self.fails(case)
            if not r:
                break
            res = r
            if case.size() == before or time.time() > self.deadline:
                break
        return case


def describe(unit, r, prop, key):
    l = ["# property %s" % prop, "# violation %s" % key, "# %s" % r.msg.strip()]
    for title, pcs in (("stack", r.stk), ("other access", r.stk2)):
        if pcs:
            l.append("# %s:" % title)
            for fn, loc in unit.sym.frames(pcs)[:24]:
                if "/sim/rt_" in loc:
                    continue
                l.append("#   %s at %s" % (short(fn), loc))
    l.append("# parameters: " + ", ".join("%s=%d" % (n, v) for _, n, _, _, v in r.params))
    l.append("# operations:")
    l += ["#   [%d] %s" % (i, t) for i, en, t in r.ops if en]
    l.append("# faults fired: " + (", ".join("%s x%d" % (FAULTS[k], n) for k, n in sorted(r.faults.items())) or "none"))
    l.append("# schedule hash %s, %d steps, %d switches, %.6f s simulated" % (r.hash, r.steps, r.switches, r.simtime / 1e9))
    l.append("# event log:")
    l += ["#   " + n for n in r.notes.split("\n")[:400] if n]
    return "\n".join(l) + "\n"
