"""Drives the workers of pysim/ (worker.py, session.py, tuning.py, messages.py, tables.py): the Python side of the repository under simulated storage (see pysim/fsshim.c)."""
import glob, json, os, shutil, subprocess, sys, time
import build as builder
from build import REPO, BUILD, VERIF, sha, read

EVID = os.path.join(VERIF, "evidence")
FAIL = os.path.join(VERIF, "failures")
HERE = os.path.join(VERIF, "pysim")


def prepare(prop):
    """What the workers of a property need: their script, the preloaded storage, the parser generated from the repository's grammar, and the compiled module or its stand-in."""
    core = extension() if prop in ("C16", "C19", "C20", "C21") else os.path.join(HERE, "stub")
    if not core: return None
    os.makedirs(BUILD, exist_ok=True)
    shim = os.path.join(BUILD, "fsshim-%s.so" % sha(read(os.path.join(HERE, "fsshim.c")))[:16])
    if not os.path.exists(shim):
        t = shim + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", t, os.path.join(HERE, "fsshim.c"), "-ldl"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            return None
        os.rename(t, shim)
    g = [os.path.join(REPO, "src", n) for n in ("slatLexer.g4", "slatParser.g4")]
    gen = os.path.join(BUILD, "parser-" + sha(*[read(f) for f in g])[:16])
    if not os.path.exists(gen):
        t = gen + ".%d" % os.getpid()
        os.makedirs(t)
        for f in g:
            shutil.copy(f, t)
        for f in g:
            r = subprocess.run(["antlr4", "-Dlanguage=Python3", os.path.basename(f)], cwd=t, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout + r.stderr)
                shutil.rmtree(t)
                return None
        os.rename(t, gen)
    return {"C16": "session.py", "C19": "tuning.py", "C20": "messages.py", "C21": "tables.py"}.get(prop, "worker.py"), shim, gen, core


def extension():
    """The repository's compiled module, built as its makefile does (but in one directory, and single-threaded when run)."""
    from concurrent.futures import ThreadPoolExecutor
    src = os.path.join(REPO, "src")
    cpp = [os.path.join(src, n + ".cpp") for n in builder.LIB]
    used = cpp + sorted(glob.glob(src + "/*.h")) + [os.path.join(src, "pyslatcore.i")]
    ext = os.path.join(BUILD, "ext-" + sha("2", *[os.path.basename(f).encode() + b"\0" + read(f) for f in used])[:20])
    if not os.path.exists(ext):
        t = ext + ".%d" % os.getpid()
        os.makedirs(t)
        flags = ["-fPIC", "-fopenmp", "-O1", "-g1", "-std=gnu++11", "-include", "functional", "-DBOOST_ALL_DYN_LINK", "-w", "-I" + src] + builder.INC
        py = subprocess.run(["pkg-config", "--cflags", "python3"], capture_output=True, text=True).stdout.split()

        def run(c):
            r = subprocess.run(c, capture_output=True, text=True, cwd=t)
            if r.returncode: sys.stderr.write("%s failed:\n%s\n" % (c[0], (r.stdout + r.stderr)[-6000:]))
            return r.returncode == 0
        ok = run(["swig", "-python", "-c++", "-py3", "-modern", "-fastdispatch", "-fvirtual", "-noproxydel", "-fastproxy", "-fastunpack", "-fastquery", "-modernargs", "-castmode", "-outdir", t, "-o", os.path.join(t, "wrap.cpp"), os.path.join(src, "pyslatcore.i")])
        if ok:
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                ok = all(ex.map(lambda f: run(["g++"] + flags + (py if f.endswith("wrap.cpp") else []) + ["-c", f, "-o", os.path.join(t, os.path.basename(f)[:-4] + ".o")]), [os.path.join(t, "wrap.cpp")] + cpp))
        if ok:
            ok = run(["g++", "-shared", "-fopenmp", "-o", "_pyslatcore.so"] + sorted(glob.glob(t + "/*.o")) + ["-lboost_log", "-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lgsl", "-lgslcblas", "-lm", "-lpthread"])
        if not ok:
            shutil.rmtree(t, ignore_errors=True)
            return None
        for f in glob.glob(t + "/*.o") + [os.path.join(t, "wrap.cpp")]:
            os.unlink(f)
        try: os.rename(t, ext)
        except OSError: shutil.rmtree(t, ignore_errors=True)
        old = sorted((d for d in glob.glob(BUILD + "/ext-*") if d != ext), key=os.path.getmtime)
        for d in old[:-20]: shutil.rmtree(d, ignore_errors=True)
    return ext


def worker(prep, args, **kw):
    script, shim, gen, core = prep
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
    env.update(LD_PRELOAD=shim, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MALLOC_PERTURB_="165", PYTHONPATH=":".join([core, os.path.join(REPO, "src"), gen]))
    return subprocess.Popen(["python3", "-W", "ignore", os.path.join(HERE, script)] + [str(a) for a in args], env=env, **kw)


def replay(f):
    prep = prepare(json.load(open(f)).get("property"))
    return worker(prep, ["replay", f]).wait() if prep else 2


def check(prop, spec, tier, seed, seconds, known, assumptions):
    t0 = time.time()
    prep = prepare(prop)
    if not prep:
        return 2
    build_s = time.time() - t0
    tmp = os.path.join(BUILD, "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    try:
        nw = max(1, min(8, os.cpu_count() or 1))
        kf = os.path.join(tmp, "known")
        json.dump([[c, m] for c, m, _ in known], open(kf, "w"))
        out = [os.path.join(tmp, "w%d" % w) for w in range(nw)]
        procs = [worker(prep, ["batch", seed, w, nw, seconds, 1 if tier == "thorough" else 0, out[w], kf], stdout=subprocess.DEVNULL, stderr=open(out[w] + ".err", "w")) for w in range(nw)]
        res, stop = [None] * nw, None
        while any(r is None for r in res):
            for w, p in enumerate(procs):
                if res[w] is None and p.poll() is not None:
                    try:
                        res[w] = json.load(open(out[w]))
                    except Exception:
                        res[w] = {"aborted": p.returncode, "msg": open(out[w] + ".err").read()[-2000:]}
                    if res[w].get("violation") or res[w].get("error") or "aborted" in res[w]:
                        stop = min(stop or 1e18, time.time() + 1.5)
            if stop and time.time() > stop:
                for w, p in enumerate(procs):
                    if res[w] is None:
                        p.kill(); p.wait(); res[w] = {"aborted": "stopped"}
            time.sleep(0.02)
        ok = [r for r in res if "runs" in r]
        errs = [r for r in ok if r["error"]] + [r for r in res if "aborted" in r and r["aborted"] != "stopped"]
        viols = sorted((r["run"], w) for w, r in enumerate(res) if r.get("violation"))
        rc, rfile = 0, None
        if viols:
            run, w = viols[0]
            os.makedirs(FAIL, exist_ok=True)
            rfile = os.path.join(FAIL, "%s-seed%d-run%d.replay" % (prop, seed, run))
            m = worker(prep, ["minimise", out[w] + ".raw", rfile, 60 if tier == "quick" else 120], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            mo = m.communicate()[0].decode(errors="replace")
            if m.returncode:
                print("minimisation failed (%s); keeping the original plan" % mo.strip()[-500:], file=sys.stderr)
                shutil.copyfile(out[w] + ".raw", rfile)
            p = worker(prep, ["replay", rfile], stdout=subprocess.PIPE)
            o = p.communicate()[0].decode(errors="replace")
            if p.returncode not in (1, 4):
                print("a violation was seen in run %d (%s: %s) but could not be replayed:\n%s" % (run, res[w]["cls"], res[w]["msg"], o), file=sys.stderr)
                rc = 2
            else:
                print("%s: %s" % (res[w]["cls"], res[w]["msg"]))
                print(o.rstrip())
                print("VIOLATION property=%s replay=%s" % (prop, rfile))
                rc = 1
        elif errs:
            for e in errs:
                print("error in run %s: %s" % (e.get("run"), e.get("msg", e)), file=sys.stderr)
            rc = 2
        for i, (c, m, d) in enumerate(known):
            n = sum(r["known"][i] for r in ok)
            if n:
                print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, d, n))
        runs = sum(r["runs"] for r in ok)
        cnt, sigs, samples = {}, set(), []
        for r in ok:
            for k, v in r["cnt"].items():
                cnt[k] = cnt.get(k, 0) + v
            sigs.update(r["sigs"])
            samples += r["samples"]
        sw = max([r["wall"] for r in ok] or [0.001])
        faults = ("error_on_", "disk_full", "short_write", "interrupted_call", "signal", "failing_query", "killed", "stdout_failing", "short_read", "stderr_full")
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0, "assumptions": assumptions,
              "coverage": {
                  "evaluations": runs, "distinct_nontrivial": len(sigs),
                  "rule": "one evaluation = one simulated history (" + spec["scenario"] + ") under one seeded fault plan, in a process of its own; non-trivial = it made at least one file-system call; distinct = different sequence of file-system calls, their results and the outcomes of the operations",
                  "samples": samples[:2] or ["(no run completed)"],
                  "runs_per_hour": int(runs / sw * 3600), "seeds_per_hour": int(runs / sw * 3600),
                  "simulated_time": {"unit": "file-system calls of the code under test (it has no clock)", "steps": cnt.get("simulated_calls", 0), "model_operations": cnt.get("operations", 0)},
                  "runs_repeated_to_confirm_determinism": sum(r["rechecked"] for r in ok),
                  "injected": {k: v for k, v in sorted(cnt.items()) if k.startswith(faults)},
                  "situations_reached": {k: v for k, v in sorted(cnt.items()) if not k.startswith(faults) and k not in ("simulated_calls",)},
                  "real_components": spec["real"], "stub_components": spec["stub"], "build_s": round(build_s, 1)}}
        if rfile and rc == 1:
            ev["coverage"]["replay"] = rfile
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print("%s: %d runs, %d distinct histories, %d violations, %.1f s" % (prop, runs, len(sigs), ev["violations"], time.time() - t0))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
