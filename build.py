#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (content-addressed object cache in /verif/build)."""
import concurrent.futures, hashlib, os, subprocess, sys, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SLAT_REPO", "/repo")          # development only; checks use /repo
BUILD = os.environ.get("SLAT_BUILD", os.path.join(VERIF, "build"))
LIB = ["functions", "relationships", "maq", "fragility", "lognormaldist", "loss_functions", "comp_group", "caching", "structure", "context", "pyslatcore"]
INC = subprocess.run(["pkg-config", "--cflags", "gsl"], capture_output=True, text=True).stdout.split()
COMMON = ["-std=gnu++11", "-g", "-O1", "-fno-pie", "-fno-omit-frame-pointer", "-include", "functional", "-DBOOST_ALL_DYN_LINK", "-w"] + INC
SUT = ["-fopenmp", "-fsanitize=thread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


def build(verbose=False):
    src = os.path.join(REPO, "src")
    sim = os.path.join(VERIF, "sim")
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    rh = sha(*[os.path.basename(f).encode() + b"\0" + read(f) for f in sorted(glob.glob(src + "/*.h"))])
    sh = sha(*[os.path.basename(f).encode() + b"\0" + read(f) for f in sorted(glob.glob(sim + "/*.h"))])
    gv = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout
    jobs = []
    for name in LIB:  # the system under test: instrumented
        jobs.append((os.path.join(src, name + ".cpp"), COMMON + SUT + ["-I" + src], rh))
    for f in sorted(glob.glob(sim + "/w_*.cpp")):  # workloads: instrumented too (they instantiate templates of the library)
        jobs.append((f, COMMON + SUT + ["-I" + src, "-I" + sim], rh + sh))
    jobs.append((os.path.join(sim, "main.cpp"), COMMON + ["-O2", "-I" + sim], sh))
    jobs.append((os.path.join(sim, "rt.cpp"), ["-std=gnu++14", "-g", "-O2", "-fno-pie", "-fno-stack-protector", "-w", "-I" + sim], sh))
    objs, todo = [], []
    for f, flags, hh in jobs:
        o = os.path.join(BUILD, "obj", os.path.basename(f)[:-4] + "-" + sha(read(f), " ".join(flags), hh, gv)[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((f, flags, o))

    def one(j):
        f, flags, o = j
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", f, "-o", t], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(t, o)
        return f, r
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, r in ex.map(one, todo):
            if r.returncode:
                sys.stderr.write("compilation of %s failed:\n%s\n" % (f, r.stderr[-6000:]))
                return None
    exe = os.path.join(BUILD, "sim-" + sha(*objs)[:24])
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        # instrumented objects first: their copies of shared template code are the ones kept
        r = subprocess.run(["g++", "-no-pie", "-o", t] + objs + ["-lboost_log", "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lgsl", "-lgslcblas", "-lm", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("link failed:\n%s\n" % r.stderr[-6000:])
            return None
        os.rename(t, exe)
    # keep the cache small
    keep = set(objs) | {exe}
    old = [f for f in glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/sim-*") if f not in keep]
    old.sort(key=os.path.getmtime)
    for f in old[:-120]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return exe


if __name__ == "__main__":
    e = build(True)
    if not e:
        sys.exit(2)
    print(e)
