"""Sessions (tuning.py, session.py) with recorders: what they write, into files and to standard output, is read back after each
analysis, and must be what the definitions and settings which were in force at that point say, point by point and column by
column, in the files named and nowhere else.

What should be written is found by processes in which nothing has been calculated before.

driver.py has the commands."""
import copy, errno, json, math, os, random, sys

import session as S
import tuning as T
from session import child, simplify, LISTS, TIMEOUT, Violation, pyslat, core
from tuning import died

KIND = {"detfn": "detfn", "probfn": "probfn", "imrate": "im", "collapse": "im", "collrate": "im", "edpim": "edp", "edprate": "edp", "dsedp": "compgroup", "dsim": "compgroup", "dsrate": "compgroup",
        "costedp": "compgroup", "costim": "compgroup", "delayedp": "compgroup", "delayim": "compgroup", "costrate": "compgroup",
        "deagg": "structure", "totalcost": "structure", "pdf": "structure", "structcost": "structure"}
BY_VALUE = ("detfn", "probfn", "structure")  # what is recorded is the object there was when the recorder was defined
FIVE = ["mean_x", "mean_ln_x", "median_x", "sd_ln_x", "sd_x"]
MOMENT = {"mean_x": "Mean", "mean_ln_x": "MeanLn", "median_x": "Median", "sd_ln_x": "SD_ln", "sd_x": "SD"}
DIST = {"mean_x": "get_mean_X", "mean_ln_x": "get_mu_lnX", "median_x": "get_median_X", "sd_ln_x": "get_sigma_lnX", "sd_x": "get_sigma_X"}
CG = {("costedp", "mean_x"): "E_Cost_EDP", ("costedp", "sd_ln_x"): "SD_ln_Cost_EDP", ("costim", "mean_x"): "E_Cost_IM", ("costim", "sd_ln_x"): "SD_ln_Cost_IM",
      ("delayedp", "mean_x"): "E_Delay_EDP", ("delayedp", "sd_ln_x"): "SD_ln_Delay_EDP", ("delayim", "mean_x"): "E_Delay_IM", ("delayim", "sd_ln_x"): "SD_ln_Delay_IM"}


class Model(S.Model):
    def __init__(self):
        S.Model.__init__(self)
        self.recs, self.outdir = {}, None

    def copy(self):
        m = S.Model.copy(self)
        m.recs, m.outdir = {k: dict(v) for k, v in self.recs.items()}, self.outdir
        return m

    def replacing(self, kind, i):
        if kind in BY_VALUE and i in self.t[kind]:
            for r in self.recs.values():
                if KIND[r["type"]] == kind and r["on"] == i and "frozen" not in r: r["frozen"] = copy.deepcopy(self.t[kind][i])

    def dest(self, name):
        p = name if os.path.dirname(name) else os.path.join(self.outdir or ".", name)
        return os.path.normpath(p if os.path.splitext(p)[1] else p + ".csv")


def points(at):
    """The points at which a recorder has been asked for output."""
    k, v = at[0], at[1:]
    if k == "list": return list(v)
    if k == "range":
        a, d, b = v
        return [a + i * d for i in range(int((b - a) / d + 0.5 + 1e-9) + 1)]
    a, b, n = v
    if k == "lin": return [a + (b - a) * i / (n - 1) for i in range(n)]
    return [a * (b / a) ** (i / (n - 1)) for i in range(n)]


# ------------------------------------------------------------------------------------------------ operations
class Recorder:
    @staticmethod
    def judge(m, op, files):
        k = KIND[op["type"]]
        if op["at"] is None and op["type"] not in ("dsrate", "collrate") and op.get("sub") not in ("annual", "npv"): return "bad"
        if op["on"] not in m.t[k]: return "skip"
        return "skip" if k == "structure" and not m.t[k][op["on"]]["im"] else "ok"

    @staticmethod
    def apply(m, op): m.recs[op["id"]] = {k: v for k, v in op.items() if k not in ("op", "q", "faults")}

    @staticmethod
    def resolve(op, vars_):
        if not op.get("var"): return op
        v = vars_.get(op["var"])
        return dict(op, at=v and ["list"] + v)

    @staticmethod
    def scriptable(op):
        cols = op["cols"] or []
        if op["type"] in ("totalcost", "deagg", "collapse", "costrate", "pdf") and cols: return False
        if op.get("sub") == "annual": return sum(c[0] == "m" for c in cols) < 2 and sum(c[0] == "s" for c in cols) < 2 and cols == sorted(cols)
        return True

    @staticmethod
    def run(op):
        P, at = pyslat, op["at"]
        o = {}
        if op["file"] is not None or op.get("given"): o = {"filename": op["file"], "append": op["append"]}
        if op.get("sub"): o["structcost-type"] = op["sub"]
        if op.get("normalise"): o["normalise"] = True
        if op.get("sub") == "npv":
            o["discount-rate"] = op["rate"]
            at = list(range(*op["years"]))
        elif at: at = {"list": lambda *v: tuple(v) if op.get("given") else list(v), "range": lambda a, d, b: P.frange(a, b, d), "lin": P.linrange, "log": P.logrange}[at[0]](*at[1:])
        P.MakeRecorder(op["id"], op["type"], getattr(P, KIND[op["type"]]).lookup(op["on"]), o, list(op["cols"]) if op["cols"] else None, at)

    @staticmethod
    def text(op):
        s = "recorder %s %s %s" % (op["id"], op["type"], op["on"])
        at, sub, cols = op["at"], op.get("sub"), op["cols"] or []
        if sub == "npv": s += " --npv %d:%d:%d %r" % (op["years"][0], op["years"][2], op["years"][1], op["rate"])
        elif sub == "annual": s += " --annual" + "".join(" --%s %s" % ("mu" if c[0] == "m" else "sd", c) for c in (cols if not op.get("swap") else cols[::-1]))
        elif sub: s += " --" + sub
        if op.get("var"): s += " $" + op["var"]
        elif at and op.get("expr"):
            k, v = at[0], at[1:]
            s += " $(%s)" % ("[%s]" % ", ".join(map(repr, v)) if k == "list" else "pyslat.frange(%r, %r, %r)" % (v[0], v[2], v[1]) if k == "range" else "pyslat.%srange(%r, %r, %d)" % ((k,) + tuple(v)))
        elif at:
            k, v = at[0], at[1:]
            s += " " + (", ".join(map(repr, v)) if k == "list" else "%r:%r:%r" % tuple(v) if k == "range" else "%r:%r --%s %d" % (v[0], v[1], "linear" if k == "lin" else "log", v[2]))
        if cols and sub != "annual": s += " --cols " + ", ".join(c if isinstance(c, str) else "$(%r*1)" % c if op.get("expr") else repr(c) for c in cols)
        if op.get("normalise"): s += " --normalise"
        if op["file"] is not None: s += " " + op["file"] + (" --append" if op["append"] else " --new" if op.get("given") else "")
        return s


class Analyze:
    judge = staticmethod(lambda m, op, files: "ok" if op.get("id") is None or op["id"] in m.recs else "skip")
    apply = staticmethod(lambda m, op: None)
    resolve = staticmethod(lambda op, vars_: op)
    scriptable = staticmethod(lambda op: op.get("id") is None)
    text = staticmethod(lambda op: "analyze")

    @staticmethod
    def run(op):
        if op.get("id") is not None: pyslat.recorder.lookup(op["id"]).run()
        else:
            for r in pyslat.recorder.all(): r.run()


class OutputDir:
    judge = staticmethod(lambda m, op, files: "ok")
    resolve = staticmethod(lambda op, vars_: op)
    scriptable = staticmethod(lambda op: True)
    text = staticmethod(lambda op: "outputdir %s" % op["path"])
    run = staticmethod(lambda op: pyslat.set_output_directory(op["path"]))

    @staticmethod
    def apply(m, op): m.outdir = op["path"]


S.MORE.update(recorder=Recorder, analyze=Analyze, outputdir=OutputDir)


# ------------------------------------------------------------------------------------------------ what should be written
def recorded(m, r):
    """The model in which, and the name under which, the recorded object is found."""
    if "frozen" not in r: return m, r["on"]
    m, i = m.copy(), r["on"] + "@"
    m.t[KIND[r["type"]]][i] = r["frozen"]
    return m, i


def table(m, r):
    """Rows of words and numbers."""
    t, kind = r["type"], KIND[r["type"]]
    m, i = recorded(m, r)
    refs = S.Ref(m)
    ask = lambda n, x=None: S.should(m, refs, kind, i, n, x)
    o = lambda: refs.get(kind, i)
    at, cols = points(r["at"]) if r["at"] else None, r["cols"]
    im = i if kind == "im" else m.t["edp"][i]["im"] if kind == "edp" else m.group_im(i) if kind == "compgroup" else m.t["structure"][i]["im"] if kind == "structure" else None
    if t == "detfn": return [["x", "y"]] + [[x, ask("ValueAt", x)] for x in at]
    if t in ("probfn", "edpim"):
        cols = cols or ["mean_ln_x", "sd_ln_x"]
        return [["x" if t == "probfn" else im] + [c if isinstance(c, str) else str(c) for c in cols]] + [[x] + [ask(MOMENT[c], x) if isinstance(c, str) else o().X_at_exceedence(x, c) for c in cols] for x in at]
    if t == "imrate": return [[im, "lambda"]] + [[x, ask("getlambda", x)] for x in at]
    if t == "collapse": return [[im, "p(Demolition)", "p(Collapse)"]] + [[x, ask("pDemolition", x), ask("pCollapse", x)] for x in at]
    if t == "collrate": return [["IM", "rate(Demolition)", "rate(Collapse)"], [im, ask("DemolitionRate"), ask("CollapseRate")]]
    if t == "edprate": return [["EDP", "lambda"]] + [[x, o().get_lambda(x)] for x in at]
    if kind == "compgroup":
        states = ["DS%d" % (k + 1) for k in range(len(m.t["fragfn"][m.t["compgroup"][i]["frag"]]))]
        if t == "dsrate": return [states, list(o().Rate())]
        if t == "costrate": return [["t", "Rate"]] + [[x, o().lambda_cost(x)] for x in at]
        if t in ("dsedp", "dsim"):
            rows = [["EDP" if t == "dsedp" else im] + states + ["E(DS)"]]
            for x in at:
                p = S.should(m, refs, "fragfn", m.t["compgroup"][i]["frag"], "pExceeded", x) if t == "dsedp" else list(o().pDS_IM(x))
                rows.append([x] + p + [sum(p)])
            return rows
        cols = cols or ["mean_x", "sd_ln_x"]
        return [["EDP" if t.endswith("edp") else im] + cols] + [[x] + [ask(CG[t, c], x) for c in cols] for x in at]
    if t == "deagg": return [[im, "mean_nc", "sd_nc", "mean_c", "sd_c"]] + [[x] + [f() for d in o().DeaggregatedCost(x) for f in (d.get_mean_X, d.get_sigma_lnX)] for x in at]
    if t == "pdf":
        p = [o().pdf(x) for x in at]
        most = max([v for v in p if v > 0], default=0.0) if r.get("normalise") else 1.0  # (there is nothing to relate values to, if none is known)
        return [[im, "pdf"]] + [[x, v / most] for x, v in zip(at, p)]
    show = lambda d: [getattr(d, DIST[c])() for c in cols]
    if t == "totalcost":
        cols = cols or ["mean_x", "sd_ln_x"]
        return [[im] + cols] + [[x] + show(o().TotalCost(x)) for x in at]
    cols = cols or ["mean_x"]
    if r["sub"] == "annual": return [cols, show(o().AnnualCost())]
    if r["sub"] == "npv": return [["Year", "E[ALt]"]] + [[y, o().E_cost(y, r["rate"])] for y in range(*r["years"])]
    if r["sub"] == "by-fate": return [[im] + [f + "." + c for f in ("repair", "demo", "coll") for c in cols]] + [[x] + [v for d in o().CostsByFate(x) for v in show(d)] for x in at]
    by = {}
    for g in m.t["structure"][i]["groups"]: by.setdefault(m.t["compgroup"][g]["edp" if r["sub"] == "by-edp" else "frag"], []).append(g)
    rows = [[im] + [b + "." + c for b in sorted(by) for c in cols]]
    for x in at:
        rows.append([x])
        for b in sorted(by):
            ds = [refs.get("compgroup", g) for g in by[b]]
            ds = [core.MakeLogNormalDist(g.E_Cost_IM(x), core.MEAN_X, g.SD_ln_Cost_IM(x), core.SD_LN_X) for g in ds]
            rows[-1] += show(core.AddDistributions(ds))
    return rows


def answer(m, recs):
    out = []
    for r in recs:
        try:
            out.append(table(m, r))
            no = [v for row in out[-1] for v in row if isinstance(v, str) and v.startswith("raises ")]
            if no: out[-1] = no[0]
        except Exception as e: out.append("raises " + type(e).__name__)
    return out


def same(have, want, tol):
    """Are these lines that table?"""
    if len(have) != len(want): return False
    for a, b in zip(have, want):
        a = a.split()
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if isinstance(y, str):
                if x != y: return False
                continue
            try: x = float(x)
            except ValueError: return False
            if not S.close(x, y if isinstance(y, S.Either) else float(y), tol): return False
    return True


# ------------------------------------------------------------------------------------------------ runs
class Run(T.Run):
    answer = staticmethod(answer)

    def __init__(self, plan, root, pipe):
        T.Run.__init__(self, plan, root, pipe)
        m = Model()
        m.tune, self.m = self.m.tune, m
        self.expected = {}  # file: [(table, tolerance)]
        self.was = {}  # recorder: what it wrote before, and what is in force since
        for d in ("res", "res/deep"): os.makedirs(os.path.join(root, d), exist_ok=True)

    def tables(self, m, ids):
        """What each of the recorders should write, and how closely."""
        keys = []
        for i in ids:
            r = m.recs[i]
            m2, on = recorded(m, r)
            keys.append(json.dumps([{k: v for k, v in r.items() if k not in ("id", "file", "append", "given", "frozen")}, m2.spec(KIND[r["type"]], on), m.tune]))
        new = {k: m.recs[i] for k, i in zip(keys, ids) if k not in self.known}
        if new:
            os.write(self.pipe, b"W\n")
            T.send(self.req, (m, list(new.values())))
            self.known.update(zip(new, T.receive(self.ans)))
            os.write(self.pipe, b"Q\n")
        return [(self.known[k], 6e-6 + (1e-4 if '"linear", [[0.0, ' in k else 1e-6)) for k in keys]

    def may_stop(self, cmds, states):
        for n, (c, m) in enumerate(zip(cmds, states)):
            if c["op"] == "analyze" and any(isinstance(t, str) for t, _ in self.tables(m, list(m.recs))): return n

    def discard(self):
        """Nothing is expected of an analysis which has failed: the user begins anew."""
        for f in self.found(): os.unlink(f)
        self.expected = {}
        self.count("analyses_failed")

    def found(self):
        out = set()
        for d, _, fs in os.walk("."):
            for f in fs:
                p = os.path.normpath(os.path.join(d, f))
                if p not in self.files and not p.startswith("script"): out.add(p)
        return out

    def shown(self, lines, want, exactly, op):
        """Standard output has these tables, in this order."""
        at = 0
        for i, (t, tol) in want:
            k = at
            while k + len(t) <= len(lines) and not same(lines[k:k + len(t)], t, tol): k += 1
            if k + len(t) > len(lines): self.wrong(i, "standard output", lines if exactly else [l for l in lines if l.startswith(" ")], t)
            if exactly and k > at: break
            at = k + len(t)
        if exactly and at < len(lines): raise Violation("output", "after operation %d, standard output has lines no recorder should have written: %s%s" % (self.at, lines[:4], self.why()))

    def wrong(self, i, where, have, want):
        for n, (a, b) in enumerate(zip(have, want)):
            if not same([a], [b], 1.2e-4): break
        else: n = min(len(have), len(want))
        raise Violation("wrong-output", "after operation %d, recorder %s wrote to %s:\n%s\nfor line %d of %d lines:\n%s%s" % (self.at, i, where, "\n".join(have[n:n + 1]) or "(%d lines)" % len(have), n + 1, len(want), want[n] if n < len(want) else "(nothing more)", self.why()))

    def check(self, analyses, shown, exactly, failed):
        """What has been written by these analyses: (model at that point, recorders)."""
        want = []
        for m, ids in analyses:
            self.count("analyses")
            for i, (t, tol) in zip(ids, self.tables(m, ids)):
                if isinstance(t, str):
                    self.count("tables_without_result")
                    failed = True; continue
                r = m.recs[i]
                if r["file"] is None: want.append((i, (t, tol)))
                else:
                    p = m.dest(r["file"])
                    if not r["append"]: self.expected[p] = []
                    self.expected.setdefault(p, []).append((i, t, tol))
                self.count("tables"); self.count("rows", len(t) - 1); self.count("recorder_" + r["type"] + ("_" + r["sub"] if r.get("sub") else ""))
                spec = json.dumps(t)
                old = self.was.get(i)
                if old:
                    self.count("recorded_again")
                    if old != spec: self.count("recorded_again_with_other_results")
                self.was[i] = spec
                self.events.append(spec)
        if failed: return self.discard()
        self.shown(shown, want, exactly, None)
        have = self.found()
        if have != set(self.expected): raise Violation("output", "after operation %d, the files written are %s, not %s%s" % (self.at, sorted(have), sorted(self.expected), self.why()))
        for p, blocks in self.expected.items():
            with open(p) as f: lines = f.read().splitlines()
            at = 0
            for i, t, tol in blocks:
                if not same(lines[at:at + len(t)], t, tol): self.wrong(i, p, lines[at:at + len(t)], t)
                at += len(t)
            if at < len(lines): raise Violation("output", "after operation %d, %s has %d lines too many: %s%s" % (self.at, p, len(lines) - at, lines[at:at + 3], self.why()))

    def one(self, op):
        mark = len(sys.stdout.getvalue())
        if op["op"] == "analyze":
            if S.judge(self.m, op, self.files) != "ok": return
            ids = list(self.m.recs) if op.get("id") is None else [op["id"]]
            err, hit = self.faulty(op, lambda: S.run_py(op))
            self.events.append("analyze %s" % self.say(err))
            lines = sys.stdout.getvalue()[mark:].splitlines()
            if hit or err:
                if not hit and not any(isinstance(t, str) for t, _ in self.tables(self.m, ids)): raise Violation("refused", "operation %d: the analysis failed: %s%s" % (self.at, self.say(err), self.why()))
                self.failed = "an analysis"
                if hit: self.count("failed_by_fault")
                return self.discard()
            return self.check([(self.m, ids)], lines, True, False)
        T.Run.one(self, op)

    def script(self, op):
        mark, failed = len(sys.stdout.getvalue()), self.cnt.get("scripts_stopped_midway", 0) + self.cnt.get("refused", 0)
        want = self.may_stop
        stopped = []
        self.may_stop = lambda c, s: stopped.append(want(c, s)) or stopped[-1]
        try: T.Run.script(self, op)
        finally: self.may_stop = want
        self.check([(m, list(m.recs)) for c, m in self.ran if c["op"] == "analyze"], sys.stdout.getvalue()[mark:].splitlines(), False, bool(stopped and stopped[0] is not None))

    def verify(self, q, n, ids=None):
        have, want = sorted(map(str, pyslat.recorder.defs)), sorted(self.m.recs)
        if have != want: raise Violation("registry", "after operation %d, the recorders are %s, not %s%s" % (self.at, have, want, self.why()))
        r = random.Random(q)
        qs = S.queries(self.m)
        for kind, i, name, x in r.sample(qs, min(len(qs), self.plan["sample"])): S.result(lambda: S.ask(kind, i, name, x))


# ------------------------------------------------------------------------------------------------ plans
class Gen(T.Gen):
    def __init__(self, r):
        T.Gen.__init__(self, r)
        self.m = Model()
        self.nout, self.three = 0, r.random() < .8

    def states(self): return 3 if self.three else T.Gen.states(self)

    def at(self, lo, hi):
        r = self.r
        k = r.choice(["list", "list", "range", "lin", "log"])
        if k == "list":
            xs = [self.f(lo, hi) for _ in range(r.randint(1, 4))]
            if r.random() < .2: xs.insert(r.randint(0, len(xs)), r.choice(xs))  # one of them twice
            return ["list"] + xs
        a, b, n = self.f(lo, hi * .4), self.f(hi * .5, hi), r.randint(2, 4)
        if k == "range":
            d = round((b - a) / (n - r.choice([1, 1, .8, .7])), 5)
            return ["range", a, d, round(a + d * (n - 1), 6) if r.random() < .6 else b]
        return [k, a, b, n]

    def recorder(self, script):
        r = self.r
        for _ in range(20):
            t = r.choice([x for x in KIND if x != "structcost"] + ["structcost"] * 4)
            on = [i for i in self.m.t[KIND[t]] if KIND[t] != "structure" or self.m.t["structure"][i]["im"]]
            if on: break
        else: return None
        op = {"op": "recorder", "id": r.choice(["r1", "r2", "r3", "r4", "r5", "r6"]), "type": t, "on": r.choice(on), "cols": None, "at": None}
        kind = KIND[t]
        lo, hi = (0.004, 0.1) if t.endswith("edp") or t == "edprate" else (0.02, 0.6) if t == "costrate" else (0.1, 2.0)
        if t not in ("dsrate", "collrate"): op["at"] = self.at(lo, hi)
        some = lambda xs, n: r.sample(xs, r.randint(1, n)) if r.random() < .7 else None
        if t in ("probfn", "edpim"):
            op["cols"] = some(FIVE, 4)
            if op["cols"] and r.random() < .4: op["cols"].insert(r.randint(0, len(op["cols"])), r.choice([0.1, 0.16, 0.5, 0.9]))
        elif t in ("costedp", "costim", "delayedp", "delayim"): op["cols"] = some(["mean_x", "sd_ln_x"], 2)
        elif t == "totalcost" and not script: op["cols"] = some(FIVE, 4)
        elif t == "pdf" and r.random() < .5: op["normalise"] = 1
        elif t == "structcost":
            k = op["sub"] = r.choice(["annual", "npv", "by-edp", "by-frag", "by-fate"])
            if k == "npv":
                a, s = r.choice([0, 1, 5]), r.choice([5, 10, 25])
                op.update(at=None, years=[a, a + s * r.randint(1, 3) + 1, s], rate=r.choice([0.05, 0.06, 0.1, 0.03]))
            elif k == "annual":
                op["at"] = None
                op["cols"] = some(FIVE, 4) if not script else r.choice([None, ["mean_x"], ["sd_x"], ["mean_x", "sd_ln_x"], ["median_x", "sd_x"], ["mean_ln_x", "sd_ln_x"], ["median_x"]])
                if script and r.random() < .3: op["swap"] = 1
            else: op["cols"] = some(FIVE, 3)
        v = r.random()
        op["file"] = None if v < .25 else r.choice(["all1", "all2", "all1.csv", "./all2"]) if v < .45 else None
        op["append"] = op["file"] is not None and r.random() < .8
        if v >= .45:
            self.nout += 1
            op["file"] = r.choice(["out%d", "out%d", "out%d.txt", "res/out%d", "res/deep/out%d.tab"]) % self.nout
            op["append"] = r.random() < .45
        if r.random() < .3: op["given"] = 1
        if script and op["at"]:
            if r.random() < .25: op["expr"] = 1
        elif op["at"] is not None and r.random() < .02: op["at"] = None
        return op

    def records(self, script, sets):
        op = self.recorder(script)
        if op and script and op["at"] and not op.get("expr") and self.r.random() < .2:
            op["var"] = "at%d" % self.r.randrange(1 << 20)
            if self.r.random() < .95:
                if self.r.random() < .6: op["var"] = "at"  # (which may have had another value)
                sets.append({"op": "set", "name": op["var"], "value": points(op["at"])})
        return op


def make_plan(seed, i, tier):
    r = random.Random("tables %d:%d" % (seed, i))
    g = Gen(r)
    g.m.tune = {"method": "directed", "tol": 1e-3, "evals": 2048, "search": 2048}
    ops = []

    def judge(o): return S.judge(g.m, o, g.files)

    def quiet(o):
        o.pop("faults", None)
        return o
    base = []
    for make, n in ((lambda: g.detfn("rate"), 1), (lambda: g.detfn("mean"), 2), (lambda: g.detfn("sd"), 1), (g.probfn, 2), (g.im, r.randint(1, 2)), (g.edp, 3), (g.fragfn, 2), (g.lossfn, 2), (g.compgroup, 3), (g.setdist, 2), (g.structure, 2), (g.setdist, 1)):
        for _ in range(n):
            for _ in range(8):
                o = make()
                if judge(o) == "ok": break
            if judge(o) == "ok":
                base.append(o); g.note(dict(o))
    if r.random() < .5 and all(map(S.scriptable, base)):
        ops.append(quiet(g.script(base)))
        ops[0].pop("cut", None)
    else: ops += base

    def change(script, sets):
        for _ in range(9):
            v = r.random()
            if v < .2:
                o = g.tune(script, sets)
                if o["how"] in ("statistics", "report"): continue
            elif v < .3: o = {"op": "outputdir", "path": r.choice(["res", "res/deep", "new", "new/deep"])}
            else: o = g.any([])
            if o["op"].startswith("import") or o["op"] == "gc" or script and not S.scriptable(o): continue
            j = judge(o)
            if j == "ok" or j == "bad" and not script: return o
    for n in range(r.randint(3, 7) if not tier else r.randint(4, 12)):
        script = r.random() < .5
        new = []
        for _ in range(r.choice([1, 2, 3]) if n else r.choice([2, 3, 4])):
            o = g.records(script, new) if r.random() < (.9 if not n else .25) else change(script, new)
            if not o or script and not S.scriptable(o) or judge(o) == "skip": continue
            new.append(o)
            if judge(o) == "ok": g.note(o)
            if script and r.random() < .25: new.append({"op": "analyze"})
        if r.random() < .85: new.append({"op": "analyze"})
        if not new: continue
        if script:
            o = g.script(new)
            if r.random() < .8: quiet(o)
            ops.append(o)
        else:
            for o in new:
                if o["op"] == "analyze":
                    if r.random() < .25 and g.m.recs: o["id"] = r.choice(list(g.m.recs))
                    if r.random() < .1:
                        o["faults"] = [{"call": r.choice(["open", "write", "write", "close"]), "nth": r.randint(1, 4), "what": r.choice(["error", "error", "sigint", "short"]), "err": r.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE]), "sticky": int(r.random() < .3), "arg": r.randint(1, 40)}]
                ops.append(o)
    ops.append({"op": "analyze"})
    for o in ops: o["q"] = r.randrange(1 << 30)
    return {"property": "C21", "seed": seed, "run": i, "sample": r.choice([0, 2, 4]), "ops": ops}


def warm():
    S.warm(make_plan)


S.RUN = Run

if __name__ == "__main__":
    import driver
    driver.main(sys.modules["__main__"])
