"""Builds the simulator, libfly (from /repo's working tree, instrumented) and the scenarios."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "g++"

RT = ("-std=c++20 -g1 -O2 -fno-pie -U_FORTIFY_SOURCE -fcf-protection=none -fno-stack-protector "
      "-Wall -Wextra").split()
INSTR = ("-std=c++20 -g1 -O1 -fno-pie -pthread -fsanitize=thread -U__SANITIZE_THREAD__ -U_FORTIFY_SOURCE "
         "-fcf-protection=none -fno-stack-protector -Wno-tsan").split() + ["-I" + REPO]
RT_SOURCES = ["rt_core", "rt_mem", "rt_io", "rt_net", "rt_sig", "rt_cxx", "driver"]
REDEF = ["memcpy", "memset", "memmove", "memcmp", "strlen", "memchr"]


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_digest(root, exts=(".hpp", ".h", ".inc", ".ipp")):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(read(p))
    return h.hexdigest()


def lib_sources():
    """The library's sources for this platform, as listed by its own files.mk."""
    res = []


    # Ask make, so that whatever the project's files.mk say is what gets built.
    mk = r"""
SOURCE_ROOT := %(repo)s
SYSTEM := LINUX
define VISIT
d := $(strip $(1))
SRC_DIRS_$$(d) :=
SRC_$$(d) :=
include $(strip $(1))/files.mk
ALL_SRC += $$(SRC_$(strip $(1)))
$$(foreach s,$$(SRC_DIRS_$(strip $(1))),$$(eval $$(call VISIT,$$(s))))
endef
ADD_REL_LIB :=
ADD_REL_INC :=
$(eval $(call VISIT,$(SOURCE_ROOT)/fly))
all: ; @printf '%%s\n' $(abspath $(ALL_SRC))
""" % {"repo": REPO}
    p = subprocess.run(["make", "-s", "-f", "-", "all"], input=mk, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == 0:
        res = [l for l in p.stdout.split("\n") if l.endswith(".cpp")]
    if not res:
        for d, dirs, files in os.walk(os.path.join(REPO, "fly")):
            dirs[:] = sorted(x for x in dirs if x not in ("win", "mac", "windows", "macos"))
            res += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cpp")]
    return sorted(set(res))


class Builder:
    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        self.repo_headers = headers_digest(os.path.join(REPO, "fly"))
        self.sim_headers = headers_digest(os.path.join(VERIF, "sim")) + headers_digest(os.path.join(VERIF, "scen"))

    def obj_path(self, tag, key):
        return os.path.join(OUT, "%s.%s.o" % (tag, key))

    def compile(self, src, tag, flags, key, post=None, real_src=None):
        obj = self.obj_path(tag, key)
        if not os.path.exists(obj):
            tmp = "%s.tmp%d" % (obj, os.getpid())
            sh([CXX] + flags + ["-c", real_src or src, "-o", tmp])
            if post:
                post(tmp)
            os.rename(tmp, obj)
        else:
            os.utime(obj)
        return obj

    def rt_job(self, name):
        src = os.path.join(VERIF, "sim", name + ".cpp")
        key = digest([read(src), self.sim_headers, " ".join(RT)])

        def post(o):
            if name != "rt_str":
                args = []
                for s in REDEF:
                    args += ["--redefine-sym", "%s=rt_%s" % (s, s)]
                sh(["objcopy"] + args + [o])
        return lambda: self.compile(src, name, RT, key, post)

    def rtstr_job(self):
        import re
        src = os.path.join(VERIF, "sim", "rt_str.cpp")
        text = read(src).decode().replace("g_active", "false")
        text = re.sub(r"\b(%s)\(" % "|".join(REDEF), r"rt_\1(", text)
        key = digest([text, self.sim_headers, " ".join(RT)])
        gen = os.path.join(OUT, "rt_rtstr.%s.cpp" % key)
        tmp = "%s.tmp%d" % (gen, os.getpid())
        with open(tmp, "w") as f:
            f.write(text)
        os.rename(tmp, gen)
        return lambda: self.compile(gen, "rt_rtstr", RT + ["-I" + os.path.join(VERIF, "sim")], key)

    def lib_job(self, src):
        rel = os.path.relpath(src, REPO)
        key = digest([read(src), rel, self.repo_headers, " ".join(INSTR)])
        return lambda: self.compile(src, rel.replace("/", "_"), INSTR, key)

    def scen_job(self, name):
        src = os.path.join(VERIF, "scen", name + ".cpp")
        key = digest([read(src), self.repo_headers, self.sim_headers, " ".join(INSTR)])
        return lambda: self.compile(src, "scen_" + name, INSTR, key)

    def unit(self, name, lib_patterns):
        """Returns the path of the executable for scenario file `name`."""
        allsrc = lib_sources()
        want = [s for s in allsrc if any(p in os.path.relpath(s, REPO) for p in lib_patterns)]
        # biggest first
        jobs = [self.scen_job(name)]
        jobs += [self.rt_job(r) for r in RT_SOURCES] + [self.rt_job("rt_str"), self.rtstr_job()]
        jobs += [self.lib_job(s) for s in sorted(want, key=lambda s: -os.path.getsize(s))]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda j: j(), jobs))
        try:
            return self.link(name, objs)
        except BuildError:
            rest = [s for s in allsrc if s not in want]
            if not rest:
                raise
            with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                objs += list(ex.map(lambda j: j(), [self.lib_job(s) for s in rest]))
            return self.link(name, objs)

    def link(self, name, objs):
        exe = os.path.join(OUT, "sim_%s.%s" % (name, digest(objs)))
        if not os.path.exists(exe):
            tmp = "%s.tmp%d" % (exe, os.getpid())
            sh([CXX, "-no-pie"] + objs + ["-o", tmp, "-pthread", "-ldl", "-rdynamic"])
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        return exe


def prune(max_bytes=600 << 20):
    """Keeps the build cache small; never removes what another check may be linking now."""
    import time
    recent = time.time() - 600
    try:
        files = [(os.path.getmtime(os.path.join(OUT, f)), os.path.getsize(os.path.join(OUT, f)), os.path.join(OUT, f))
                 for f in os.listdir(OUT)]
    except OSError:
        return
    total = sum(f[1] for f in files)
    for mtime, size, path in sorted(files):
        if total <= max_bytes or mtime > recent:
            break
        try:
            os.unlink(path)
            total -= size
        except OSError:
            pass
