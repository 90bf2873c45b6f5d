"""Sessions (session.py) in which the settings of the integration change: results asked for before are asked for again after
it, and must be those of the settings which are in force then. What is in force is read back after every operation.
What results should be is found by processes in which nothing has been calculated before, and the settings are made once.

driver.py has the commands."""
import ctypes, hashlib, json, os, pickle, random, signal, struct, sys

import session as S
from session import child, simplify, LISTS, TIMEOUT, Violation, pyslat, core

SLOW = [n for n in ("E_Cost_IM", "SD_ln_Cost_IM", "pDS_IM", "E_Delay_IM", "SD_ln_Delay_IM", "E_annual_cost", "Rate", "lambda_cost", "CollapseRate", "DemolitionRate", "getlambda",
                    "TotalCost", "CostsByFate", "pdf", "DeaggregatedCost", "Cost0", "Cost1", "AnnualCost", "E_cost")]


SETTINGS = ("Search Algorithm", "Tolerance", "Integration Eval Limit", "Search Eval Limit")


def in_force(report=None):
    """The settings, as they are reported."""
    t = dict(l.split(": ", 1) for l in (report or pyslat.Format_Statistics()).splitlines() if ": " in l)
    name = {v: k for k, v in S.METHODS.items()}
    return {"method": name.get(t["Search Algorithm"], t["Search Algorithm"]), "tol": float(t["Tolerance"]), "evals": int(t["Integration Eval Limit"]), "search": int(t["Search Eval Limit"])}


def read_exactly(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x: os._exit(0)
        b += x
    return b


def send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<q", len(b)) + b
    while b: b = b[os.write(fd, b):]


def receive(fd):
    return pickle.loads(read_exactly(fd, struct.unpack("<q", read_exactly(fd, 8))[0]))


def dies_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def serve(fd_in, fd_out, answer):
    """Answers requests for reference results, each in a process of its own."""
    while True:
        m, qs = receive(fd_in)
        if os.fork() == 0:
            try:
                dies_with_parent()
                core.Set_Integration_Tolerance(m.tune["tol"])
                core.Set_Integration_Eval_Limit(m.tune["evals"])
                core.Set_Integration_Search_Limit(m.tune["search"])
                core.Set_Integration_Method(getattr(core, S.METHOD_ID[m.tune["method"]]))
                send(fd_out, answer(m, qs))
            finally: os._exit(0)
        os.wait()


def died(plan, root, st, lines, busy):
    """Waiting for reference results is no matter of this property."""
    return S.died(plan, root, st, lines[:-1] + ["Q", ""] if len(lines) > 1 and lines[-2] == "W" else lines, busy or len(lines) > 1 and lines[-2] == "W")


def answer(m, qs):
    refs = S.Ref(m)
    return [S.result(lambda: S.should(m, refs, *q)) for q in qs]


class Run(S.Run):
    answer = staticmethod(answer)

    def __init__(self, plan, root, pipe):
        S.Run.__init__(self, plan, root, pipe)
        (a, self.req), (self.ans, b) = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                dies_with_parent()
                for fd in (self.req, self.ans, pipe): os.close(fd)
                sys.stdout = sys.stderr = S.io.StringIO()
                serve(a, b, self.answer)
            finally: os._exit(0)
        os.close(a); os.close(b)
        self.known = {}
        self.m.tune = in_force()
        self.last = {}

    def verify(self, q, n, ids=None):
        m = self.m
        if self.at >= 0 and ids is not None and self.plan["ops"][self.at].get("silent"): return
        have = in_force()
        if have != reported(m.tune):
            raise Violation("settings", "after operation %d, the integration settings in force are %s, not %s%s" % (self.at, have, m.tune, self.why()))
        if m.reset:
            left = [l for l in pyslat.Format_Statistics().splitlines() if ": " in l and l.split(": ")[0] not in SETTINGS and l.split(": ")[1] != "0"]
            if left: raise Violation("settings", "after operation %d, the statistics, which have been reset, report %s%s" % (self.at, left, self.why()))
            self.count("statistics_reset")
        m.reset = False
        if extreme(m.tune): return self.count("settings_out_of_the_ordinary")  # (there isn't the time to find results with them)
        S.Run.verify(self, q, 2, ids)
        # the same queries again and again (as far as what they are about is still there)
        qs = [x for x in S.queries(m) if x[2] in SLOW and not (x[0] == "im" and x[2] == "getlambda")]
        qs.sort(key=lambda x: hashlib.sha1(("%d" % self.plan["run"] + json.dumps(x)).encode()).digest())
        qs = [(json.dumps([q, m.spec(q[0], q[1]), m.tune]), q) for q in qs[:min(n, 12)]]
        new = [x for x in qs if x[0] not in self.known]
        if new:
            os.write(self.pipe, b"W\n")
            send(self.req, (m, [x[1] for x in new]))
            self.known.update(zip([x[0] for x in new], receive(self.ans)))
            os.write(self.pipe, b"Q\n")
        for ref, (kind, i, name, x) in qs:
            a = S.result(lambda: S.ask(kind, i, name, x))
            b = self.known[ref]
            self.count("queries")
            self.events.append("%s" % hashlib.sha1(repr(a).encode()).hexdigest()[:8])
            if not S.close(a, b, 1e-6):
                raise Violation("wrong-result", "after operation %d, with %s, %s of %s %s%s is %s, but should be %s%s" % (self.at, have, name, kind, i, "" if x is None else " at %s" % x, a, b, self.why()))
            key = (kind, i, name, str(x))
            spec = json.dumps(m.spec(kind, i))
            old = self.last.get(key)
            if old and old[0] == spec and old[1] != m.tune:
                self.count("asked_again_with_other_settings")
                if not S.close(old[2], a, 1e-6): self.count("results_which_changed")
            self.last[key] = (spec, dict(m.tune), a)

    def one(self, op):
        before = dict(self.m.tune)
        S.Run.one(self, op)
        if self.m.tune != before: self.count("settings_changed")


    def script(self, op):
        """What is printed on demand are the settings in force at that point."""
        start, self.ran = len(sys.stdout.getvalue()), []
        S.Run.script(self, op)
        told = sys.stdout.getvalue()[start:].split("Integration Statistics:\n")[1:]
        want = [reported(m.tune) for c, m in self.ran if c.get("how") == "report"]
        if len(told) != len(want): raise Violation("settings", "operation %d: the statistics were printed %d times, not %d times, by the script:\n%s" % (self.at, len(told), len(want), S.script_text(op)))
        for a, b in zip(told, want):
            try: a = in_force(a)
            except (KeyError, ValueError): pass
            if a != b: raise Violation("settings", "operation %d: the settings printed are %s, not %s, by the script:\n%s" % (self.at, a, b, S.script_text(op)))
            self.count("statistics_printed")


def extreme(t): return t["tol"] < 1e-5 or t["evals"] > 10000 or t["search"] > 10000


def reported(t):
    return dict(t, tol=float("%g" % t["tol"]))


class Gen(S.Gen):
    def number(self, k):
        r = self.r
        if k == "tol": return r.choice([1e-2, 5e-3, 1e-3, 1e-3, 5e-4, 0.05, self.f(3e-4, 1e-2)])
        if k == "evals": return r.choice([16, 32, 64, 128, 256, 512, 1024, 2048, r.randint(8, 1024)])
        if k == "search": return r.choice([4, 16, 64, 128, 1024, 2048, 8192, r.randint(2, 4096)])
        return r.choice(list(S.METHODS))

    def tune(self, script, sets):
        r = self.r
        how = r.choice(["command"] * 7 + ["statistics"] * 2 + ["report"]) if script else r.choice(["settings", "settings", "tol", "evals", "search", "method", "method", "statistics", "report"])
        op = {"op": "tune", "how": how}
        for k in S.USES[how]: op[k] = self.number(k)
        if how == "command" and r.random() < .5: del op["method"], op["search"]
        if how == "method" and r.random() < .12: op["method"] = "nothing"
        for k in ("tol", "evals", "search"):
            if k in op and r.random() < .06: op[k] = r.choice([0, 0, -1, -0.5]) if k == "tol" and not script else 0 if k != "tol" else op[k]
        if r.random() < .15:  # all or most of what is in force already
            for k in S.USES[how]:
                if k in op and r.random() < .8: op[k] = self.m.tune[k]
            if "tol" in op and r.random() < .3: op["tol"] = float("%.6g" % (op["tol"] * r.choice([0.999, 1.001, 1.01])))
        if how == "command":
            for k in ("tol", "evals", "search"):
                if k not in op: continue
                v = r.random()
                if v < .25: op.setdefault("exprs", []).append(k)
                elif v < .5:
                    name = "w%d" % r.randrange(1 << 20)
                    known = r.random() < .93
                    if known and r.random() < .6: name = "w_" + k  # (which may have had another value)
                    op.setdefault("vars", {})[k] = name
                    if known: sets.append({"op": "set", "name": name, "value": op[k]})
        return op


def make_plan(seed, i, tier):
    r = random.Random("tuning %d:%d" % (seed, i))
    g = Gen(r)
    g.m.tune = {"method": "directed", "tol": 1e-3, "evals": 2048, "search": 2048}
    ops = []

    def quiet(o):
        """Reading the script does not fail here: that is for C16."""
        o.pop("faults", None)
        return o
    base = []
    for make, n in ((lambda: g.detfn("rate"), 1), (lambda: g.detfn("mean"), 2), (lambda: g.detfn("sd"), 1), (g.probfn, 2), (g.im, 1), (g.edp, 2), (g.fragfn, 2), (g.lossfn, 2), (g.compgroup, 3), (g.setdist, 2), (g.structure, 1), (g.setdist, 1)):
        for _ in range(n):
            for _ in range(8):
                o = make()
                if judge(g, o) == "ok": break
            if judge(g, o) == "ok":
                base.append(o); g.note(dict(o))
    if r.random() < .4 and all(map(S.scriptable, base)):
        ops.append(quiet(g.script(base)))
        ops[0].pop("cut", None)
    else: ops += base
    for o in ops[:-1]: o["silent"] = 1
    for _ in range(r.randint(3, 8) if not tier else r.randint(4, 14)):
        v = r.random()
        if v < .12:  # anything positive may be asked for
            script = r.random() < .5
            was = dict(g.m.tune)
            o = {"op": "tune", "how": "command" if script else r.choice(["settings", "tol", "evals", "search"])}
            for k in S.USES[o["how"]]: o[k] = was[k] if k == "method" else {"tol": lambda: r.choice([1e-6, 1e-9, 2.5e-12, 1.23457e-07]), "evals": lambda: r.choice([65536, 100001, 1000000, 2147483647]), "search": lambda: r.choice([16384, 65537, 1000001, 2147483647])}[k]()
            back = dict(o, **{k: was[k] for k in S.USES[o["how"]]})
            ops += [{"op": "script", "cmds": [o, {"op": "tune", "how": "report"}, back]}] if script and r.random() < .5 else [{"op": "script", "cmds": [x]} for x in (o, back)] if script else [o, back]
        elif v < .75:
            script = r.random() < .45
            new = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                if script and new and r.random() < .4:
                    o = g.any([])
                    if o["op"].startswith("import") or not S.scriptable(o) or judge(g, o) != "ok": continue
                else: o = g.tune(script, new)
                new.append(o)
                if judge(g, o) == "ok": g.note(o)
            if script:
                o = g.script(new)
                if r.random() < .8: quiet(o)
                ops.append(o)
            else: ops += new
        else:
            for _ in range(9):
                o = g.any([])
                if not o["op"].startswith("import") and judge(g, o) == "ok": break
            else: continue
            g.note(o)
            ops.append(o)
    for o in ops: o["q"] = r.randrange(1 << 30)
    return {"property": "C19", "seed": seed, "run": i, "sample": r.choice([3, 5, 8]), "ops": ops}


def judge(g, o):
    return S.judge(g.m, o, g.files)


def warm():
    S.warm(make_plan)


S.RUN = Run

if __name__ == "__main__":
    import driver
    driver.main(sys.modules["__main__"])
