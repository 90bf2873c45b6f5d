#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N]    run one property's check
   check.py --replay FILE                                     replay a recorded failure

Exit 0: the property held on everything explored. Exit 1: a violation (line "VIOLATION property=.. replay=..").
Exit 2: the check could not be carried out."""
import argparse, json, os, struct, subprocess, sys, time, signal, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder
import registry

EVID = os.path.join(VERIF, "evidence")
FAIL = os.path.join(VERIF, "failures")
KNOWN = os.path.join(VERIF, "known_findings.txt")
STRAT = {0: "no_preemption", 1: "random", 2: "switch_at_synchronisation", 3: "pct_priorities", 4: "mixed"}


def known_findings(prop):
    """lines: 'finding: property=ID class=CLASS match=TEXT :: description' ('fixed:' lines suppress nothing)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                head, _, desc = l.rstrip("\n").partition(" :: ")
                cls = head.split(" class=")[1].split(" match=")[0]
                out.append((cls, head.split(" match=")[1], desc))
    return out


def sim(exe, args, **kw):
    env = dict(os.environ, OMP_NUM_THREADS="", LC_ALL="C")
    for k in list(env):
        if k.startswith(("OMP_", "GOMP_", "MALLOC_", "LD_")):
            del env[k]
    env.update(kw.pop("extra", {}))
    return subprocess.Popen([exe] + [str(a) for a in args], env=env, **kw)


def run_batches(exe, prop, seed, tier, seconds, tmp, known):
    nw = max(1, min(8, os.cpu_count() or 1))
    t = 1 if tier == "thorough" else 0
    extra = {}
    if known:
        kf = os.path.join(tmp, "known")
        open(kf, "w").write("".join("%s\t%s\n" % (c, m) for c, m, _ in known))
        extra["SIM_KNOWN"] = kf
    procs = [sim(exe, ["batch", prop, seed, w, nw, 1 << 40, seconds, t, os.path.join(tmp, "w%d" % w)], extra=extra, stdout=subprocess.DEVNULL) for w in range(nw)]
    res = [None] * nw
    stop_at = None
    while any(r is None for r in res):
        for w, p in enumerate(procs):
            if res[w] is None and p.poll() is not None:
                f = os.path.join(tmp, "w%d.json" % w)
                try:
                    res[w] = json.load(open(f))
                except Exception:
                    res[w] = {"aborted": p.returncode}
                if res[w].get("violation") or res[w].get("error"):
                    stop_at = min(stop_at or 1e18, time.time() + 1.5)
        if stop_at and time.time() > stop_at:
            for w, p in enumerate(procs):
                if res[w] is None:
                    p.kill(); p.wait(); res[w] = {"aborted": "stopped"}
        time.sleep(0.02)
    return res, extra


def distinct(tmp, nw, ext):
    s = set()
    for w in range(nw):
        f = os.path.join(tmp, "w%d.%s" % (w, ext))
        if os.path.exists(f):
            b = open(f, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    return len(s)


def check_sim(prop, spec, tier, seed, seconds):
    t0 = time.time()
    exe = builder.build()
    if not exe:
        print("the simulator could not be built from the current tree", file=sys.stderr)
        return 2
    build_s = time.time() - t0
    known = known_findings(prop)
    tmp = os.path.join(VERIF, "build", "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp)
    try:
        res, extra = run_batches(exe, prop, seed, tier, seconds, tmp, known)
        ok = [r for r in res if "runs" in r]
        errs = [r for r in ok if r["error"]] + [r for r in res if "aborted" in r and r["aborted"] != "stopped"]
        viols = sorted((r["run"], w) for w, r in enumerate(res) if r.get("violation"))
        rc, replay = 0, None
        if viols:
            run, w = viols[0]
            os.makedirs(FAIL, exist_ok=True)
            replay = os.path.join(FAIL, "%s-seed%d-run%d.replay" % (prop, seed, run))
            raw = os.path.join(tmp, "w%d.raw" % w)
            m = sim(exe, ["minimise", raw, replay, 60 if tier == "quick" else 120], extra=extra, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            merr = m.communicate()[1]
            if m.returncode:  # keep the full plan
                print("minimisation failed (%s); keeping the original plan" % merr.decode(errors="replace").strip(), file=sys.stderr)
                shutil.copyfile(raw, replay)
            p = sim(exe, ["replay", replay], stdout=subprocess.PIPE)
            out = p.communicate()[0].decode(errors="replace")
            if p.returncode not in (1, 4):
                print("a violation was seen in run %d (%s: %s) but could not be replayed:\n%s" % (run, res[w]["class"], res[w]["msg"], out), file=sys.stderr)
                rc = 2
            else:
                print("%s: %s" % (res[w]["class"], res[w]["msg"]))
                print(out.rstrip())
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                rc = 1
        elif errs:
            for e in errs:
                print("error in run %s: %s" % (e.get("run"), e.get("msg", e)), file=sys.stderr)
            rc = 2
        for i, (c, m, d) in enumerate(known):
            n = sum(r["known"][i] for r in ok)
            if n:
                print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, d, n))
        # ---- evidence
        runs = sum(r["runs"] for r in ok)
        cnt, prb, st, samples = {}, {}, [0] * 10, []
        for r in ok:
            for k, v in r["counters"].items():
                cnt[k] = max(cnt.get(k, 0), v) if k == "max_team" else cnt.get(k, 0) + v
            for k, v in r["probes"].items():
                a = prb.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
            st = [x + y for x, y in zip(st, r["strategies"])]
            samples += r["samples"]
        wall = time.time() - t0
        sim_wall = max([r["wall"] for r in ok] or [0.001])
        nsig = distinct(tmp, len(res), "sig")
        coverage = {
            "evaluations": runs,
            "distinct_nontrivial": nsig,
            "rule": "one evaluation = one simulated execution of a generated scenario (" + spec["scenario"] + ") under one seeded schedule and fault plan; non-trivial = at least one switch between simulated threads happened (or, for a single-threaded scenario, at least one fault or operation was performed); distinct = different order of synchronisation events, switches and operations across threads (64-bit signature)",
            "samples": samples[:2] or ["(no run completed)"],
            "distinct_event_logs": distinct(tmp, len(res), "hash"),
            "runs_per_hour": int(runs / sim_wall * 3600),
            "seeds_per_hour": int(runs / sim_wall * 3600),
            "simulated_time": {"unit": "scheduling steps (memory accesses and synchronisation operations of the code under test; the code has no clock)", "steps": cnt.get("steps", 0), "model_operations": cnt.get("operations", 0)},
            "runs_with_thread_switches": sum(r["with_switches"] for r in ok),
            "runs_over_step_budget": sum(r["over_budget"] for r in ok),
            "runs_repeated_to_confirm_determinism": sum(r["rechecked"] for r in ok),
            "scheduling_strategies_runs": {STRAT[i]: st[i] for i in STRAT},
            "injected": {k: v for k, v in sorted(cnt.items()) if not k.startswith("f") or not k[1:].isdigit()},
            "scenario_counters": {n: cnt.get("f%d" % (i + 1), 0) for i, n in enumerate(spec.get("fcounters", []))},
            "situations_reached": {k: {"times": v[0], "runs": v[1]} for k, v in prb.items()},
            "real_components": spec["real"],
            "stub_components": spec["stub"],
            "build_s": round(build_s, 1),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
              "assumptions": registry.ASSUMPTIONS + spec.get("assumptions", [])}
        if replay and rc == 1:
            ev["coverage"]["replay"] = replay
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print("%s: %d runs, %d distinct interleavings, %d violations, %.1f s" % (prop, runs, nsig, ev["violations"], wall))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        head = open(a.replay, errors="replace").read(200000)
        if head.lstrip().startswith("{"):
            import pysim_check
            return pysim_check.replay(a.replay)
        exe = builder.build()
        if not exe:
            return 2
        return sim(exe, ["replay", a.replay]).wait()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    spec = registry.SPECS[a.property]
    seconds = a.seconds or spec["seconds"][0 if tier == "quick" else 1]
    if spec.get("engine") == "python":
        import pysim_check
        return pysim_check.check(a.property, spec, tier, seed, seconds, known_findings(a.property), spec["assumptions"])
    return check_sim(a.property, spec, tier, seed, seconds)


if __name__ == "__main__":
    sys.exit(main())
