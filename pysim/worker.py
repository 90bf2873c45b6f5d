"""Runs the real src/pyslat.py and src/SlatInterpreter.py against simulated storage (fsshim.c) and a stand-in for the compiled module.
One run is one forked process; its plan (operations and faults) comes from a seed or a replay file.

driver.py has the commands."""
import ctypes, errno, hashlib, io, json, os, random, select, shutil, signal, sys, tempfile, time

import pyslatcore as stub
import pyslat
from antlr4 import CommonTokenStream, InputStream, ParseTreeWalker
from antlr4.error.ErrorStrategy import BailErrorStrategy
from slatLexer import slatLexer
from slatParser import slatParser
import SlatInterpreter as SI

C = ctypes.CDLL(None)
C.fs_log.restype = ctypes.c_char_p
C.fs_hardname.restype = ctypes.c_char_p
C.fs_quota.argtypes = [ctypes.c_long]
CALLS = ["open", "write", "close", "mkdir", "fsync", "rename", "truncate", "unlink", "ropen", "read"]
WHATS = ["error", "short", "eintr", "kill", "lost", "sigint"]
EXC = {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "StopIteration": StopIteration, "BrokenPipeError": BrokenPipeError}
OUT_DIRS = ["out", "out/deep", "second", "."]


# ------------------------------------------------------------------------------------------------ the model behind the recorders
def build_model():
    P = pyslat
    d1 = P.detfn("d1", "power law", [1.0, 2.0]); d2 = P.detfn("d2", "hyperbolic", [1.0, 2.0, 3.0]); d3 = P.detfn("d3", "linear", [[0.0, 1.0], [1.0, 2.0]])
    p1 = P.probfn("p1", "lognormal", [P.LOGNORMAL_MU_TYPE.MEAN_X, d1], [P.LOGNORMAL_SIGMA_TYPE.SD_LN_X, d2])
    p2 = P.probfn("p2", "lognormal", [P.LOGNORMAL_MU_TYPE.MEAN_X, d2], [P.LOGNORMAL_SIGMA_TYPE.SD_LN_X, d3])
    i1 = P.im("i1", d1)
    e1, e2 = P.edp("e1", i1, p1), P.edp("e2", i1, p2)
    o = {"mu": P.LOGNORMAL_MU_TYPE.MEAN_X, "sd": P.LOGNORMAL_SIGMA_TYPE.SD_LN_X}
    f1, f2 = P.fragfn_user("f1", o, [[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]]), P.fragfn_user("f2", o, [[0.2, 0.2], [0.4, 0.4]])
    l1 = P.simplelossfn("l1", o, [[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]])
    c1, c2, c3 = P.compgroup("c1", e1, f1, l1, l1, 3, 1.0, 1.0), P.compgroup("c2", e2, f1, l1, None, 2, 1.0, 1.0), P.compgroup("c3", e2, f2, l1, None, 1, 1.0, 1.0)
    s1 = P.structure("s1")
    for c in (c1, c2, c3):
        s1.AddCompGroup(c)


TYPES = {"detfn": ["d1", "d2", "d3"], "probfn": ["p1", "p2"], "imrate": ["i1"], "edpim": ["e1", "e2"], "edprate": ["e1", "e2"], "dsrate": ["c1", "c2", "c3"], "dsedp": ["c1", "c3"], "dsim": ["c2", "c3"],
         "costedp": ["c1", "c2"], "costim": ["c1", "c3"], "delayedp": ["c1"], "delayim": ["c2"], "costrate": ["c1", "c3"], "totalcost": ["s1"], "collapse": ["i1"], "collrate": ["i1"], "structcost": ["s1"], "pdf": ["s1"]}
NO_AT = ("dsrate", "collrate")
DEFS = {"d": "detfn", "p": "probfn", "i": "im", "e": "edp", "c": "compgroup", "s": "structure"}


def func(name):
    return getattr(pyslat, DEFS[name[0]]).defs[name]


def raw(name):
    f = func(name)
    return f._structure if name[0] == "s" else f._func


def points(at):
    return None if at is None else [at[0] + at[1] * k for k in range(at[2])]


def dist_cols(cols, dist):  # the columns of a distribution, as by-* tables know them
    m = {"mean_x": dist.get_mean_X, "mean_ln": dist.get_mu_lnX, "median": dist.get_median_X, "sd_ln_x": dist.get_sigma_lnX, "sd_x": dist.get_sigma_X}
    return "".join("{:>15.6}".format(m[c]()) for c in cols)


def expected(r):
    """The complete output of a recorder, made without the code under test."""
    t, fn, at, cols, ot = r["type"], raw(r["fn"]), points(r["at"]), r["cols"], r.get("opts", {})
    L = []
    row = lambda x, vs: L.append("{:>15.6}".format(x) + "".join("{:>15.6}".format(v) for v in vs))
    head = lambda *h: L.append("".join("{:>15}".format(x) for x in h))
    im = "i1"
    if t == "dsrate":
        v = fn.Rate()
        L.append("".join("{:>20}".format("DS%d" % (i + 1)) for i in range(len(v))))
        L.append("".join("{:>20.6}".format(x) for x in v))
    elif t == "detfn":
        head("x", "y")
        for x in at: row(x, [fn.ValueAt(x)])
    elif t in ("probfn", "edpim"):
        cols = cols or ["mean_ln_x", "sd_ln_x"]
        head(*(["x" if t == "probfn" else im] + cols))
        m = {"mean_x": "Mean", "mean_ln_x": "MeanLn", "median_x": "Median", "sd_ln_x": "SD_ln", "sd_x": "SD"}
        for x in at: row(x, [getattr(fn, m[c])(x) for c in cols])
    elif t == "imrate":
        head(im, "lambda")
        for x in at: row(x, [fn.get_lambda(x)])
    elif t == "edprate":
        head("EDP", "lambda")
        for x in at: row(x, [fn.get_lambda(x)])
    elif t in ("dsedp", "dsim"):
        n = fn.frag.n
        head(*(["EDP" if t == "dsedp" else im] + ["DS%d" % (i + 1) for i in range(n)] + ["E(DS)"]))
        for x in at:
            v = fn.frag.pExceeded(x) if t == "dsedp" else fn.pDS_IM(x)
            row(x, list(v) + [sum(v)])
    elif t in ("costedp", "costim", "delayedp", "delayim"):
        cols = cols or ["mean_x", "sd_ln_x"]
        head(*(["EDP" if t.endswith("edp") else im] + cols))
        m = {("costedp", "mean_x"): "E_Cost_EDP", ("costedp", "sd_ln_x"): "SD_ln_cost_EDP", ("costim", "mean_x"): "E_Cost_IM", ("costim", "sd_ln_x"): "SD_ln_Cost_IM",
             ("delayedp", "mean_x"): "E_Delay_EDP", ("delayedp", "sd_ln_x"): "SD_ln_Delay_EDP", ("delayim", "mean_x"): "E_Delay_IM", ("delayim", "sd_ln_x"): "SD_ln_Delay_IM"}
        for x in at: row(x, [getattr(fn, m[t, c])(x) for c in cols])
    elif t == "costrate":
        head("t", "Rate")
        for x in at: row(x, [fn.lambda_cost(x)])
    elif t == "totalcost":
        cols = cols or ["mean_x", "sd_ln_x"]
        head(*([im] + cols))
        m = {"mean_x": "get_mean_X", "mean_ln_x": "get_mu_lnX", "median_x": "get_median_X", "sd_ln_x": "get_sigma_lnX", "sd_x": "get_sigma_X"}
        for x in at: row(x, [getattr(fn.TotalCost(x), m[c])() for c in cols])
    elif t == "collapse":
        head(im, "p(Demolition)", "p(Collapse)")
        for x in at: row(x, [fn.pDemolition(x), fn.pCollapse(x)])
    elif t == "collrate":
        L.append("{:>15}{:>30}{:>30}".format("IM", "rate(Demolition)", "rate(Collapse)"))
        L.append("{:>15}{:>30}{:>30}".format(im, fn.DemolitionRate(), fn.CollapseRate()))
    elif t == "pdf":
        L.append("{:>15.6}{:>15.6}".format(im, "pdf"))
        v = [fn.pdf(x) for x in at]
        d = max(v) if ot.get("normalise") else 1.0
        for x, y in zip(at, v): row(x, [y / d])
    elif t == "structcost":
        k = ot["structcost-type"]
        if k == "annual":
            d = fn.AnnualCost(); cols = cols or ["mean_x"]
            m = {"mean_x": "get_mean_X", "mean_ln_x": "get_mu_lnX", "median_x": "get_median_X", "sd_ln_x": "get_sigma_lnX", "sd_x": "get_sigma_X"}
            L.append("".join("{:>15}".format(c) for c in cols))
            L.append("".join("{:>15.6}".format(getattr(d, m[c])()) for c in cols))
        elif k == "npv":
            head("Year", "E[ALt]")
            for y in at: L.append("{:>15}{:>15.6}".format(y, fn.E_cost(y, ot["discount-rate"])))
        elif k == "by-fate":
            cols = cols or ["mean_x"]
            head(*([im] + ["%s.%s" % (f, c) for f in ("repair", "demo", "coll") for c in cols]))
            for x in at: L.append("{:>15.6}".format(x) + "".join(dist_cols(cols, fn.CostsByFate(x)[i]) for i in range(3)))
        else:
            cols = cols or ["mean_x"]
            w = 15 if k == "by-edp" else 20
            g = {"e1": ["c1"], "e2": ["c2", "c3"]} if k == "by-edp" else {"f1": ["c1", "c2"], "f2": ["c3"]}
            L.append("{:>15}".format(im) + "".join("{:>{}}".format("%s.%s" % (c, y), w) for c in sorted(g) for y in cols))
            for x in at:
                line = "{:>15.6}".format(x)
                for c in sorted(g):
                    d = stub.AddDistributions([stub.MakeLogNormalDist(raw(q).E_Cost_IM(x), stub.MEAN_X, raw(q).SD_ln_Cost_IM(x), stub.SD_LN_X) for q in g[c]])
                    s = dist_cols(cols, d)
                    line += "".join("{:>{}}".format(s[i * 15:i * 15 + 15].strip(), w) for i in range(len(cols)))
                L.append(line)
    return "".join(l + "\n" for l in L)


def script_text(cmds):
    text = []
    for c in cmds:
        k = c["op"]
        if k == "outdir": text.append("outputdir %s;" % c["path"])
        elif k == "analyze": text.append("analyze;")
        elif k == "print":
            text.append("print message '%s'%s;" % (c["text"], (" %s %s" % (c["file"], "--append" if c["append"] else "--new")) if c["file"] else ""))
        elif k == "rec":
            at = points(c["at"])
            s = "recorder %s %s %s" % (c["id"], c["type"], c["fn"])
            o = c.get("opts", {})
            if c["type"] == "structcost" and o["structcost-type"] == "annual":
                s += " --annual --mu mean_x --sd sd_ln_x"
            elif c["type"] == "structcost":
                s += " --%s" % o["structcost-type"]
            if at is not None and not (c["type"] == "structcost" and o.get("structcost-type") == "annual"):
                s += " $([%r + %r * k for k in numpy.arange(%d).tolist()])" % tuple(c["at"])
            if o.get("normalise"): s += " --normalise"
            if c["cols"] and not (c["type"] == "structcost" and o.get("structcost-type") == "annual"): s += " --cols " + ", ".join(c["cols"])
            if c["file"]: s += " %s %s" % (c["file"], "--append" if c["append"] else "--new")
            text.append(s + ";")
    return "\n".join(text) + "\n"


def parse_script(text):
    parser = slatParser(CommonTokenStream(slatLexer(InputStream(text))))
    parser._errHandler = BailErrorStrategy()
    try:
        return parser.script()
    except Exception as e:
        raise RuntimeError("harness: the script was not understood: %r\n%s" % (e, text))


# ------------------------------------------------------------------------------------------------ one run (in a process of its own)
class Violation(Exception):
    pass


class Out(io.StringIO):
    fail_at, n, failed, ever = 0, 0, False, 0

    def write(self, s):
        self.n += 1
        if self.fail_at and self.n >= self.fail_at:
            self.failed = True; self.ever += 1
            raise OSError(errno.ENOSPC, "standard output cannot be written")
        return super().write(s)


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read().decode("latin-1")
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = ""
    return out


class Run:
    def __init__(self, plan, root, pipe):
        self.plan, self.root, self.pipe = plan, root, pipe
        self.outdir = None
        self.recs = {}
        self.events = []
        self.inner_failed = None
        self.cnt = {}
        self.known = set()

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def bad(self, cls, msg):
        raise Violation(cls, "operation %d: %s" % (self.at_op, msg))

    def dest(self, name):
        p = name if "/" in name else (self.outdir or ".") + "/" + name
        base = p.rsplit("/", 1)[1]
        return os.path.normpath(p if "." in base.lstrip(".") else p + ".csv")

    # -- every run of a recorder and every print to a file goes through here, whoever calls it
    def observed(self, call, label, dest, append, text):
        C.fs_active(0)
        before = snapshot(self.root)
        mine = {f for f in before if f in self.known or f.endswith("/")}   # a file of the implementation's own is its own affair
        if dest is not None: self.known.add(dest)
        pend = signal.sigpending()
        if self.kill_planned:
            os.write(self.pipe, ("B" + json.dumps([dest, append, {f: c for f, c in before.items() if f in mine}, self.at_op]) + "\n").encode())
        h0, r0, mark, stdout = C.fs_hard(), len(stub.raised), self.out.tell(), sys.stdout
        s0, hr0 = C.fs_soft(), C.fs_hardreads()
        exc = None
        C.fs_active(1); stub.counting = True
        try:
            call()
            for _ in range(20): pass      # a pending signal is delivered here at the latest
        except BaseException as e:
            exc = e
        C.fs_active(0); stub.counting = False
        name = type(exc).__name__ if exc else None
        if exc is not None:
            exc.__traceback__ = None; exc.__context__ = None; exc.__cause__ = None
        if sys.stdout is not stdout:
            self.bad("stdout-not-restored", "after %s standard output was not restored" % label)
        after = snapshot(self.root)
        hard, threw = C.fs_hard() - h0, len(stub.raised) - r0
        signalled = self.sigint_planned and C.fs_soft() > s0
        natural = dest is not None and (dest + "/" in before or (os.path.dirname(dest) and os.path.dirname(dest) + "/" not in before))
        shown = self.out.getvalue()[mark:]
        self.events.append("%s %s" % (label, name))
        self.count("runs_observed"); self.count("failed" if exc else "completed")
        if exc is None:
            if hard > C.fs_hardreads() - hr0: self.bad("unreported-failure", "%s returned normally although %s" % (label, "a call failed: " + C.fs_hardname().decode("latin-1")))
            if threw: self.bad("unreported-failure", "%s returned normally although producing its output failed (%s)" % (label, stub.raised[-1]))
            if self.out.failed and dest is None: self.bad("unreported-failure", "%s returned normally although standard output could not be written" % label)
            if dest is None:
                if text not in shown: self.bad("incomplete-output", "%s did not print its complete output (%d characters expected, %d shown)" % (label, len(text), len(shown)))
            else:
                if natural: self.bad("unreported-failure", "%s returned normally although %s cannot be a file" % (label, dest))
                want = (before.get(dest, "") if append else "") + text
                got = after.get(dest)
                if got is None: self.bad("incomplete-file", "%s returned normally but %s does not exist" % (label, dest))
                if got != want:
                    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    self.bad("incomplete-file", "%s returned normally but %s has %d characters instead of %d; they differ from character %d on" % (label, dest, len(got), len(want), k))
        else:
            if not (hard or threw or natural or signalled or (dest is None and self.out.failed)):
                self.bad("spurious-failure", "%s raised %s (%s) although nothing failed" % (label, name, exc))
            if append and dest in before and not after.get(dest, "").startswith(before[dest]):
                self.bad("contents-lost", "%s failed, and the previous contents of %s were lost" % (label, dest))
        for f, c in before.items():
            if f != dest and f in mine and after.get(f) != c:
                self.bad("other-file-changed", "%s changed %s, which is not its file" % (label, f))
        if exc is not None:
            self.inner_failed = "%s (%s)" % (label, name)
        C.fs_active(1); stub.counting = True
        if exc is not None:
            raise exc

    def wrap(self, r, obj):
        real = obj.run
        label = "recorder %s (%s)" % (r["id"], r["type"])

        def run():
            C.fs_active(0); stub.counting = False
            d = None if r["file"] is None else self.dest(r["file"])
            text = expected(r)
            self.observed(real, label, d, r["append"], text)
        obj.run = run

    def define(self, r):
        o = dict(r.get("opts", {}))
        if r["file"] is not None or r.get("fileopt"):
            o["filename"] = r["file"]
        if r["append"] or r.get("fileopt"):
            o["append"] = r["append"]
        self.recs[r["id"]] = r
        obj = pyslat.MakeRecorder(r["id"], r["type"], func(r["fn"]), o, list(r["cols"]) if r["cols"] else None, points(r["at"]))
        self.wrap(r, obj)

    def set_outdir(self, path):
        old, h0 = self.outdir, C.fs_hard()
        try:
            pyslat.set_output_directory(path)
        except BaseException as e:
            C.fs_active(0)
            self.events.append("outdir " + type(e).__name__)
            self.inner_failed = "setting the output directory"
            blocked = any(os.path.isfile(os.path.join(self.root, "/".join(path.split("/")[:k + 1]))) for k in range(path.count("/") + 1))
            if C.fs_hard() == h0 and not blocked:
                self.bad("spurious-failure", "setting the output directory %s failed although nothing failed" % path)
            pyslat.set_output_directory(old or ".")
            self.outdir = old
            C.fs_active(1)
            e.__traceback__ = None
            raise e
        C.fs_active(0)
        if C.fs_hard() > h0: self.bad("unreported-failure", "setting the output directory %s returned normally although %s" % (path, C.fs_hardname().decode()))
        if not os.path.exists(os.path.join(self.root, path)): self.bad("unreported-failure", "setting the output directory returned normally but %s does not exist" % path)
        C.fs_active(1)
        self.outdir = path
        self.events.append("outdir ok")

    def arm(self, op):
        C.fs_clear()
        stub.calls, stub.plan = 0, {}
        self.kill_planned = self.sigint_planned = False
        for f in op.get("faults", []):
            if "quota" in f:
                C.fs_quota(f["quota"])
            else:
                C.fs_fault(CALLS.index(f["call"]), f["nth"], WHATS.index(f["what"]), f.get("err", 0), f.get("sticky", 0), f.get("arg", 0))
                self.kill_planned |= f["what"] == "kill"
                self.sigint_planned |= f["what"] == "sigint"
        t = op.get("throw")
        if t: stub.plan[t[0]] = EXC[t[1]]
        self.out.n = 0; self.out.failed = False; self.out.fail_at = op.get("outfail", 0)
        self.inner_failed = None

    def one(self, op):
        k = op["op"]
        if k == "rec":
            self.define(op)
            return
        if k == "pre":
            p = os.path.join(self.root, op["path"])
            if not os.path.isdir(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f: f.write(op["text"])
            self.known.add(os.path.normpath(op["path"]))
            return
        if k == "dir":
            if not os.path.exists(os.path.join(self.root, op["path"])): os.makedirs(os.path.join(self.root, op["path"]))
            return
        if k == "run" and op["id"] not in pyslat.recorder.defs:
            return
        self.arm(op)
        exc = None
        C.fs_active(1)
        try:
            if k == "run": pyslat.recorder.lookup(op["id"]).run()
            elif k == "outdir": self.set_outdir(op["path"])
            elif k == "script": self.script(op)
        except Violation:
            raise
        except BaseException as e:
            exc = type(e).__name__
            if self.inner_failed is None and not self.out.failed:
                C.fs_active(0)
                self.bad("spurious-failure", "%s raised %s (%s) although none of its parts failed" % (k, exc, e))
        C.fs_active(0); stub.counting = False
        if exc is None and self.inner_failed is not None:
            self.bad("unreported-failure", "the %s went on as if nothing had happened although %s failed" % (k, self.inner_failed))
        self.out.fail_at = 0

    def script(self, op):
        C.fs_active(0)
        text = script_text(op["cmds"])
        prints = [c for c in op["cmds"] if c["op"] == "print"]
        recs = [c for c in op["cmds"] if c["op"] == "rec"]
        run = self
        kp, kr = [0], [0]
        real_make, real_out = pyslat.MakeRecorder, pyslat.set_output_directory

        def make(*a):
            obj = real_make(*a)
            r = recs[kr[0]]; kr[0] += 1
            run.recs[r["id"]] = r
            run.wrap(r, obj)
            return obj

        def outdir(path):
            pyslat.set_output_directory = real_out
            try: run.set_outdir(path)
            finally: pyslat.set_output_directory = outdir

        class Interp(SI.SlatInterpreter):
            def exitPrint_command(self, ctx):
                c = prints[kp[0]]; kp[0] += 1
                run.observed(lambda: super(Interp, self).exitPrint_command(ctx), "print to %s" % c["file"], os.path.normpath(c["file"]) if c["file"] else None, c["append"], c["text"] + "\n")
        tree = parse_script(text)
        pyslat.MakeRecorder, pyslat.set_output_directory = make, outdir
        C.fs_active(1)
        try:
            ParseTreeWalker().walk(Interp(), tree)
        finally:
            pyslat.MakeRecorder, pyslat.set_output_directory = real_make, real_out

    def go(self):
        stub.counting = False
        self.out = Out()
        sys.stdout = self.out
        sys.stderr = io.StringIO()
        os.chdir(self.root)
        build_model()
        for i, op in enumerate(self.plan["ops"]):
            self.at_op = i
            self.one(op)
            self.count("operations")


def child(plan, root, pipe):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    C.fs_root(root.encode()); C.fs_reads(1)
    run = Run(plan, root, pipe)
    try:
        run.go()
        res = {"outcome": "ok"}
    except Violation as v:
        res = {"outcome": "violation", "cls": v.args[0], "msg": v.args[1]}
    except BaseException as e:
        import traceback
        C.fs_active(0)
        res = {"outcome": "error", "cls": "", "msg": "".join(traceback.format_exception(e))}
    C.fs_active(0)
    log = C.fs_log().decode("latin-1")
    res["log"] = log[-60000:]
    res["sig"] = hashlib.sha1((log + "\n".join(run.events)).encode()).hexdigest()[:16]
    res["hash"] = hashlib.sha1((log + "\n".join(run.events) + res["outcome"] + res.get("msg", "")).encode()).hexdigest()[:16]
    for key, word in (("error_on_%s" % c, "%s " % c) for c in CALLS):
        run.cnt[key] = sum(1 for l in log.splitlines() if l.startswith(word) and " error " in l)
    for key, word in (("disk_full", " full"), ("short_write", " short"), ("interrupted_call", " EINTR"), ("signal", " signal")):
        run.cnt[key] = sum(1 for l in log.splitlines() if l.endswith(word))
    if run.out.ever: run.cnt["stdout_failing"] = run.out.ever
    run.cnt["failing_query"] = len(stub.raised)
    run.cnt["simulated_calls"] = log.count("\n")
    res["cnt"] = run.cnt
    os.write(pipe, ("R" + json.dumps(res) + "\n").encode())


def died(plan, root, st, lines, busy):
    """The process ended without a result: is that allowed, and is the disk as it should be?"""
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:  # killed by the plan: what is on the disk?
        b = [l for l in lines if l.startswith("B")]
        cnt = {"killed": 1}
        h = hashlib.sha1(json.dumps(plan["ops"]).encode()).hexdigest()[:16]
        if b:
            dest, append, before, opn = json.loads(b[-1][1:])
            after = snapshot(root)
            for f, c in before.items():
                if f != dest and after.get(f) != c:
                    return {"outcome": "violation", "cls": "other-file-changed", "msg": "operation %d: the process was killed while writing %s, and %s, completed earlier, is not what it was" % (opn, dest, f), "hash": h, "sig": h, "log": "", "cnt": cnt}
            if append and dest in before and not after.get(dest, "").startswith(before[dest]):
                return {"outcome": "violation", "cls": "contents-lost", "msg": "operation %d: the process was killed while appending to %s, and its previous contents were lost" % (opn, dest), "hash": h, "sig": h, "log": "", "cnt": cnt}
            h = hashlib.sha1(json.dumps([h, sorted(after.items())]).encode()).hexdigest()[:16]
        return {"outcome": "ok", "hash": h, "sig": h, "log": "", "cnt": cnt}
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 78:
        return {"outcome": "violation", "cls": "hang", "msg": "a failing call was repeated for ever", "hash": "hang", "sig": "hang", "log": "", "cnt": {}}


def simplify(op):
    """Simpler forms of an operation, and lists in it which may be shortened, for the minimiser."""
    for key in ("throw", "outfail", "faults"):
        if key in op: yield {k: v for k, v in op.items() if k != key}
    if op.get("at"):
        for n in (1, 2, 5, 20, 60, 140, 280):
            if n < op["at"][2]: yield dict(op, at=op["at"][:2] + [n])


LISTS = ("faults", "cmds")


def warm():
    """Fills the parser's tables before the runs are forked, so that each does not have to."""
    for i in range(60):
        for op in make_plan(99, i, 0)["ops"]:
            if op["op"] == "script": parse_script(script_text(op["cmds"]))



# ------------------------------------------------------------------------------------------------ plans
FILES = ["a", "b.txt", "c.csv", "sub/d", "./e", "missing/f", "x.y", "a"]


def gen_rec(r, ident, script=False):
    t = r.choice(list(TYPES))
    fn = r.choice(TYPES[t])
    n = r.choice([1, 1, 2, 3, 3, 5, 8, 8, 20, 60, 100, 140, 270, 280, 500]) if not script else r.choice([1, 2, 4, 30, 150, 280])
    at = None if t in NO_AT else [round(r.uniform(0.01, 2), 2), round(r.uniform(0.01, 0.5), 2), n]
    cols, opts = None, {}
    if t in ("probfn", "edpim", "totalcost") and r.random() < .6:
        cols = r.sample(["mean_x", "mean_ln_x", "median_x", "sd_ln_x", "sd_x"], r.randint(1, 4))
        if t == "totalcost" and script: cols = None
    elif t in ("costedp", "costim", "delayedp", "delayim") and r.random() < .4:
        cols = [r.choice(["mean_x", "sd_ln_x"])]
    elif t == "structcost":
        k = r.choice(["annual", "by-fate", "by-edp", "by-frag", "npv"]) if not script else r.choice(["annual", "by-fate", "by-edp", "by-frag"])
        opts["structcost-type"] = k
        if k == "npv": opts["discount-rate"] = 0.06; at = [1, 3, min(n, 100)]
        elif k == "annual": at = None; cols = ["mean_x", "sd_ln_x"] if script else (r.sample(["mean_x", "mean_ln_x", "median_x", "sd_ln_x", "sd_x"], r.randint(1, 5)) if r.random() < .7 else None)
        else: cols = r.sample(["mean_x", "sd_ln_x", "sd_x"], r.randint(1, 3)) if r.random() < .7 else None
    elif t == "pdf" and r.random() < .5: opts["normalise"] = True
    f = None if r.random() < .12 else r.choice(FILES)
    return {"op": "rec", "id": ident, "type": t, "fn": fn, "at": at, "cols": cols, "opts": opts, "file": f, "append": bool(f) and r.random() < .4, "fileopt": r.random() < .3}


ERRORS = [errno.EBADF, errno.EINVAL, errno.ENXIO, errno.ENODEV, errno.EPIPE, errno.ETXTBSY, errno.ESTALE, errno.EPERM, errno.ENOENT, errno.ENOTDIR, errno.EISDIR, errno.ELOOP, errno.ENAMETOOLONG, errno.ENFILE, errno.ENOMEM, errno.EBUSY, errno.EOVERFLOW, errno.ETIMEDOUT, errno.EREMOTEIO, errno.ENOTCONN]


def gen_faults(r, op, big):
    u = r.random()
    if u < .45: return
    fs = []

    def err(*usual): return r.choice(usual if r.random() < .7 else ERRORS)
    for _ in range(1 if r.random() < .8 else 2):
        v = r.random()
        if v < .2: fs.append({"quota": r.choice([0, 1, 14, 100, 8191, 8192, 8193, 16384, r.randint(0, 30000)])})
        elif v < .42: fs.append({"call": "write", "nth": r.choice([1, 1, 1, 2, 2, 3, 4, 6]), "what": "error", "err": err(errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG), "sticky": int(r.random() < .5)})
        elif v < .52: fs.append({"call": "write", "nth": r.choice([1, 1, 2, 3]), "what": "short", "arg": r.randint(0, 9000), "sticky": int(r.random() < .5)})
        elif v < .60: fs.append({"call": r.choice(["write", "write", "open"]), "nth": r.choice([1, 1, 2, 3]), "what": "eintr"})
        elif v < .70: fs.append({"call": "open", "nth": r.choice([1, 1, 2]), "what": "error", "err": err(errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EIO)})
        elif v < .80: fs.append({"call": "close", "nth": r.choice([1, 1, 2]), "what": r.choice(["error", "lost"]), "err": err(errno.EIO, errno.ENOSPC, errno.EDQUOT)})
        elif v < .85: fs.append({"call": r.choice(["write", "open", "close", "rename"]), "nth": r.choice([1, 1, 2, 3]), "what": "kill"})
        elif v < .90: fs.append({"call": "write", "nth": r.choice([1, 1, 2]), "what": "sigint"})
        elif v < .95: fs.append({"call": "mkdir", "nth": r.choice([1, 1, 2]), "what": "error", "err": err(errno.EACCES, errno.ENOSPC, errno.EROFS, errno.ENOENT)})
        elif v < .97: fs.append({"call": r.choice(["fsync", "rename"]), "nth": 1, "what": "error", "err": r.choice([errno.EIO, errno.ENOSPC])})
        else: fs.append({"call": r.choice(["ropen", "read"]), "nth": r.choice([1, 1, 2]), "what": "error", "err": r.choice([errno.EIO, errno.EACCES, errno.EMFILE])})
    op["faults"] = fs


def gen_env(r, op):
    """Faults for one operation: of the storage, of a query, of standard output, or none."""
    u = r.random()
    if u < .6: gen_faults(r, op, False)
    elif u < .8: op["throw"] = [r.choice([1, 1, 2, 3, 5, 10, 50, 200]), r.choice(list(EXC))]
    elif u < .84: op["outfail"] = r.choice([1, 2, 3, 5, 20])
    if u > .75 and u < .8: gen_faults(r, op, False)


def make_plan(seed, i, tier):
    r = random.Random("%d:%d" % (seed, i))
    ops = []
    for d in ("sub",):
        if r.random() < .85: ops.append({"op": "dir", "path": d})
    n = r.randint(2, 5)
    ids = ["r%d" % k for k in range(n)]
    for k in ids: ops.append(gen_rec(r, k))
    for _ in range(r.randint(1, 8 if not tier else 16)):
        u = r.random()
        if u < .62:
            op = {"op": "run", "id": r.choice(ids)}; gen_env(r, op); ops.append(op)
        elif u < .70:
            ops.append(gen_rec(r, r.choice(ids)))
        elif u < .78:
            op = {"op": "outdir", "path": r.choice(OUT_DIRS)}
            if r.random() < .4: gen_faults(r, op, False)
            ops.append(op)
        elif u < .84:
            ops.append({"op": "pre", "path": r.choice(["a.csv", "out/a.csv", "b.txt", "sub/d.csv", "e.csv", "unrelated", "out/unrelated", "x.y"]), "text": r.choice(["", "previous\n", "no newline", "z" * r.randint(1, 20000)])})
        elif u < .87:
            ops.append({"op": "dir", "path": r.choice(["a.csv", "b.txt", "out/a.csv", "missing", "sub"])})
        else:
            cmds = []
            for _ in range(r.randint(1, 4)):
                v = r.random()
                if v < .35: cmds.append(gen_rec(r, r.choice(ids), True))
                elif v < .65: cmds.append({"op": "print", "text": "".join(r.choice("abc xyz") for _ in range(r.choice([1, 5, 80, 8200]))).strip() or "x", "file": r.choice(["note", "a.csv", "sub/n.txt", None]), "append": r.random() < .5})
                elif v < .8: cmds.append({"op": "outdir", "path": r.choice(["out", "second", "out/deep"])})
                else: cmds.append({"op": "analyze"})
            if r.random() < .6: cmds.append({"op": "analyze"})
            for c in cmds:
                if c["op"] == "print" and c["file"] is None: c["append"] = False
            op = {"op": "script", "cmds": cmds}; gen_env(r, op); ops.append(op)
    return {"property": "C14", "seed": seed, "run": i, "ops": ops}


if __name__ == "__main__":
    import driver
    driver.main(sys.modules["__main__"])
