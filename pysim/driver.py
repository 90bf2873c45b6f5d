"""What workers of simulated Python sessions have in common: every run is a forked process, made from a seed or a replay file.
A worker module provides child(plan, root, pipe), make_plan, warm, died, simplify and LISTS.

WORKER batch SEED FIRST STRIDE SECONDS TIER OUT | minimise RAW OUT SECONDS | replay FILE | plan SEED RUN"""
import gc, json, os, select, shutil, signal, sys, tempfile, time

M = None


def computing(pid):
    """Is the process using the processor, rather than waiting for something which does not come?"""
    def ticks():
        with open("/proc/%d/stat" % pid) as f: return sum(map(int, f.read().rsplit(")", 1)[1].split()[11:13]))
    a = ticks()
    time.sleep(2)
    return ticks() > a


def execute(plan):
    root = tempfile.mkdtemp(prefix="slatfs-")
    r, w = os.pipe()
    try:
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                M.child(plan, root, w)
            finally:
                os._exit(0)
        os.close(w)
        data, busy, late, deadline = b"", False, False, time.time() + getattr(M, "TIMEOUT", 60)
        while True:
            left = deadline - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                busy = computing(pid)
                if not late and select.select([r], [], [], 0)[0]:  # it has gone on meanwhile, or is done
                    late, deadline = True, time.time() + 10
                    continue
                os.kill(pid, signal.SIGKILL); break
            b = os.read(r, 1 << 16)
            if not b: break
            data += b
        st = os.waitpid(pid, 0)[1]
        lines = data.decode().split("\n")
        res = [l for l in lines if l.startswith("R")]
        if res: return json.loads(res[-1][1:])
        return M.died(plan, root, st, lines, busy) or {"outcome": "error", "cls": "", "msg": "run ended without a result (status %x)" % st, "hash": "", "sig": "", "cnt": {}}
    finally:
        os.close(r)
        shutil.rmtree(root, ignore_errors=True)


def batch(seed, first, stride, seconds, tier, out, knownf=None, maxruns=1 << 60):
    known = json.load(open(knownf)) if knownf else []
    nknown = [0] * len(known)
    t0 = time.time()
    runs, cnt, sigs, samples, rechecked = 0, {}, set(), [], 0
    rep = {"violation": 0, "error": 0}
    i = first
    while time.time() - t0 < seconds and runs < maxruns:
        p = M.make_plan(seed, i, tier)
        res = execute(p)
        runs += 1
        sigs.add(res.get("sig", ""))
        for k, v in res["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
        if len(samples) < 2 and runs % 7 == 3: samples.append(json.dumps(p)[:1500])
        for k, (c, m) in enumerate(known):
            if res["outcome"] == "violation" and c == res["cls"] and m in res["msg"]: nknown[k] += 1; res["outcome"] = "known"
        if res["outcome"] == "violation" or runs % 97 == 1:
            again = execute(p); rechecked += 1
            if again["hash"] != res["hash"] and "abandoned" not in (again["hash"], res["hash"]):
                rep.update(error=1, run=i, msg="nondeterministic run: same plan, different event log\n%s\n%s" % (res.get("msg"), again.get("msg"))); json.dump(p, open(out + ".raw", "w")); break
        if res["outcome"] == "violation":
            rep.update(violation=1, run=i, cls=res["cls"], msg=res["msg"]); json.dump(p, open(out + ".raw", "w")); break
        if res["outcome"] == "error":
            rep.update(error=1, run=i, msg=res["msg"]); json.dump(p, open(out + ".raw", "w")); break
        i += stride
    rep.update(known=nknown, runs=runs, cnt=cnt, sigs=sorted(sigs), samples=samples, rechecked=rechecked, wall=time.time() - t0)
    json.dump(rep, open(out, "w"))


def minimise(rawf, out, seconds):
    p = json.load(open(rawf))
    deadline = time.time() + seconds
    first = execute(p)
    if first["outcome"] != "violation": print("not reproduced"); return 3
    cls, n0 = first["cls"], len(p["ops"])

    def fails(ops):
        if time.time() > deadline: return False
        x = execute(dict(p, ops=ops))
        return x["outcome"] == "violation" and x["cls"] == cls

    def shrink(lst, build):
        k = max(1, len(lst) // 2)
        while lst:
            j, any_ = 0, False
            while j < len(lst):
                c = lst[:j] + lst[j + k:]
                if fails(build(c)): lst, any_ = c, True
                else: j += k
            if k == 1 and not any_: break
            k = max(1, k // 2)
        return lst
    ops = shrink(p["ops"], lambda c: c)
    for i in range(len(ops)):
        put = lambda o: ops[:i] + [o] + ops[i + 1:]
        changed = True
        while changed:
            changed = False
            for o in M.simplify(ops[i]):
                if fails(put(o)): ops, changed = put(o), True; break
        for key in M.LISTS:
            if ops[i].get(key): ops[i][key] = shrink(ops[i][key], lambda c: put(dict(ops[i], **{key: c})))
    p["ops"] = ops
    res = execute(p)
    if res["outcome"] != "violation": print("lost the failure"); return 3
    p.update({"comment": "Replay file: run './check.py --replay THIS_FILE' in /verif; minimised from %d operations to %d" % (n0, len(ops)), "violation_class": res["cls"], "message": res["msg"], "hash": res["hash"], "trace": res["log"].splitlines()[-40:]})
    json.dump(p, open(out, "w"), indent=1)
    return 0


def replay(f):
    p = json.load(open(f))
    res = execute(p)
    print("outcome", res["outcome"], res.get("cls", ""), "hash", res["hash"])
    print(res.get("msg", ""))
    print("\n".join(res.get("log", "").splitlines()[-40:]))
    if res["outcome"] == "violation":
        same = p.get("hash") in (None, res["hash"])
        print("REPRODUCED", "exactly" if same else "with a different event log")
        return 1 if same else 4
    return 0 if res["outcome"] == "ok" else 3


def main(module):
    global M
    M = module
    a = sys.argv
    if a[1] != "plan":
        M.warm()
        gc.collect(); gc.freeze(); gc.disable()
    if a[1] == "batch": batch(int(a[2]), int(a[3]), int(a[4]), float(a[5]), int(a[6]), a[7], a[8] if len(a) > 8 else None, int(a[9]) if len(a) > 9 else 1 << 60)
    elif a[1] == "minimise": sys.exit(minimise(a[2], a[3], float(a[4])))
    elif a[1] == "replay": sys.exit(replay(a[2]))
    elif a[1] == "plan": print(json.dumps(M.make_plan(int(a[2]), int(a[3]), 0), indent=1))
