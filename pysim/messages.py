"""Sessions in which messages are logged: the destinations change, and their files are in simulated storage (fsshim.c), which
fails as planned. The same session is first run with nothing but the initial logging; what it says, and its results, are the
reference for the session proper, which is judged by what arrived in standard error, standard output and every log file, after
each operation and after it ended.

driver.py has the commands."""
import ctypes, errno, hashlib, io, json, math, os, pickle, random, re, resource, signal, sys

import session as S
from session import C, CALLS, WHATS, LISTS, died, pyslat, SI

TIMEOUT = 60
C.exit.argtypes = [ctypes.c_int]
NAN, INF = float("nan"), float("inf")


# ------------------------------------------------------------------------------------------------ what runs in the sessions
def log_text(c):
    return " ".join(["log"] + ([] if c.get("on") is None else ["--stderr" if c["on"] else "--nostderr"]) + ([c["file"]] if c.get("file") else []))


def command(c):
    return log_text(c) if c["op"] == "log" else S.text_of(c)


def run_op(op):
    if op["op"] == "ask": return S.ask(*op["q"])
    if op["op"] == "log":
        if op.get("on") is not None: pyslat.LogToStdErr(op["on"])
        if op.get("file"): pyslat.SetLogFile(op["file"].replace("@", os.getcwd()))
    else: S.run_py(op)


def script(name, cmds):
    with open(name, "w") as f: f.write("".join(command(c) + ";\n" for c in cmds))
    SI.main(["", name])


def files_in(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as h: out[os.path.relpath(p, d)] = h.read()
    return out


class Session:
    """One session; all it sees is left in a file."""
    def __init__(self, plan, root, name):
        self.plan, self.name, self.logging = plan, name, name == "real"
        self.dir = os.path.join(root, name)
        self.side = os.path.join(root, name + ".")
        self.events = []

    def one(self, op):
        """Runs an operation; (what came out of it, which files were hit by faults)."""
        if op["op"] == "file":
            os.makedirs(os.path.dirname(op["path"]) or ".", exist_ok=True)
            with open(op["path"], "w") as f: f.write(op["text"])
            return None, [], None
        parts = None
        C.fs_clear()
        if self.logging:
            for x in op.get("faults", ()): C.fs_fault(CALLS.index(x["call"]), x["nth"], WHATS.index(x["what"]), x.get("err", 0), x.get("sticky", 0), x.get("arg", 0))
        start = len(C.fs_log())
        try:
            if op["op"] != "script":
                C.fs_active(1)
                r = S.norm(run_op(op)) if self.logging or op["op"] != "log" else None
            elif self.logging:
                with open("../script", "w") as f: f.write("".join(command(c) + ";\n" for c in op["cmds"]))
                C.fs_active(1)
                SI.main(["", "../script"])
                r = None
            else:
                parts, r = [], None
                for c in op["cmds"]:
                    if c["op"] != "log": script("../script", [c])
                    parts.append(self.said("err"))
        except Exception as e: r = "raises %s: %s" % (type(e).__name__, str(e).replace(self.dir, ".")[:200])
        finally:
            C.fs_active(0); C.fs_clear()
        hit = []
        for l in C.fs_log()[start:].decode().splitlines():
            w = re.match(r"(\w+) (.*) (error|EINTR|short|full)( \d+)?$", l)
            if w: hit.append(w.groups()[:3])
        return r, hit, parts

    def said(self, which):
        try: return os.stat(self.side + which).st_size
        except OSError: return 0

    def go(self):
        os.mkdir(self.dir)
        os.chdir(self.dir)
        for f, t in FIRST.items():
            os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
            with open(f, "w") as h: h.write(t)
        for fd, f in ((1, "out"), (2, "err")):
            path = "/dev/full" if self.logging and self.plan.get("full") and fd == 2 else self.side + f
            n = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(n, fd); os.close(n)
        sys.stdout = sys.stderr = io.StringIO()
        C.fs_root((self.dir if self.logging else "/nowhere").encode())
        for op in self.plan["ops"]:
            r, hit, parts = self.one(op)
            C.fflush(None)
            self.events.append({"r": r, "hit": hit, "parts": parts, "err": self.said("err"), "out": self.said("out"), "files": {f: (len(t), hashlib.sha1(t).digest()) for f, t in files_in(".").items()} if self.logging else None})
        with open(self.side + "events", "wb") as f: pickle.dump((self.events, C.fs_log()), f)
        if self.logging:
            C.fs_clear()
            for x in self.plan.get("endfaults", ()): C.fs_fault(CALLS.index(x["call"]), x["nth"], WHATS.index(x["what"]), x.get("err", 0), x.get("sticky", 0), x.get("arg", 0))
            C.fs_active(1)
        C.exit(0)


# ------------------------------------------------------------------------------------------------ what should have arrived
class LogFile:
    def __init__(self, path, usable, before):
        self.path, self.usable, self.before = path, usable, before    # before: what it may contain until something is logged
        self.text = b""
        self.excused = not usable

    def contents(self):
        """Everything which may be in it, if nothing more is logged."""
        return [self.text] if self.text else [b""] + (self.before or [])


FIRST = {"taken": "not a log file\n", "here/file": "not a log file, either\n"}   # files which are always there


def usable(path):
    """Can it be opened?"""
    return path != "here" and not any(path.startswith(p + "/") for p in FIRST)


class Judge:
    def __init__(self, plan):
        self.plan = plan
        self.err_on, self.cur = True, None
        self.closed = {}         # path -> LogFile
        self.plain = {p: t.encode() for p, t in FIRST.items()}          # files which are no log files
        self.cnt = {}

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def bad(self, cls, msg):
        raise S.Violation(cls, "after operation %d (%s), %s" % (self.at, self.what, msg))

    def known(self):
        k = dict(self.closed)
        if self.cur: k[self.cur.path] = self.cur
        return k

    def log(self, c):
        if c.get("on") is not None: self.err_on = c["on"]
        if c.get("file"):
            path = os.path.normpath(c["file"].replace("@/", ""))
            if self.cur:
                self.closed[self.cur.path] = self.cur
                if self.cur.path == path: self.count("same_file_again")
            prev = self.closed.pop(path, None)
            self.cur = LogFile(path, usable(path), prev.contents() if prev else [self.plain.pop(path, None)] if usable(path) else [None])
            if prev and (prev.excused or prev.before is None and not prev.text): self.cur.before = None
            self.touched.append(self.cur)
            self.count("log_file_set" if usable(path) else "log_file_which_cannot_be_opened")

    def message(self, text):
        n = text.count(b"\n")
        if self.err_on: self.want_err += text
        if self.cur:
            self.cur.text += text
            self.count("messages_to_file", n)
        self.count("messages", n)
        if not self.err_on and not self.cur: self.count("messages_to_nowhere", n)

    def check_files(self, have, end):
        known = self.known()
        for p in have:
            if p not in known and p not in self.plain: self.bad("stray-file", "there is a file %s, which nobody asked for" % p)
        for p, t in self.plain.items():
            if have.get(p) != (len(t), hashlib.sha1(t).digest()): self.bad("other-file", "%s, which is not a log file, has changed" % p)
        for p, f in known.items():
            if f.excused or end and self.plan.get("endfaults") and f is self.cur: continue
            if f.before is None and not f.text: continue     # who knows what was in it
            got, ways = have.get(p), f.contents()
            if any(got is None if w is None else got == (len(w), hashlib.sha1(w).digest()) for w in ways):
                self.count("log_files_compared")
                continue
            if f is self.cur and not end:                     # not everything has to have been written
                if got is None or f.before is None or any(w and got == (len(w), hashlib.sha1(w).digest()) for w in f.before): continue
                if got[0] <= len(f.text) and hashlib.sha1(f.text[:got[0]]).digest() == got[1]: continue
            self.bad("log-file", "the log file %s %s, but %s (%d bytes, beginning %r) was logged to it" % (p, "does not exist" if got is None else "contains %d bytes" % got[0], "no more than this" if f is self.cur and not end else "this", len(f.text), f.text[:160]))

    def go(self, ref, real, ref_err, root):
        ra, rr = 0, 0            # how much of standard error was looked at
        out = 0
        for i, (op, a, b) in enumerate(zip(self.plan["ops"], ref, real)):
            self.at, self.what = i, json.dumps(op)[:300]
            self.want_err, self.touched = b"", [self.cur] if self.cur else []
            text = ref_err[ra:a["err"]]
            if op["op"] == "file": self.plain[op["path"]] = op["text"].encode()
            elif op["op"] == "script":
                at = ra
                for c, p in zip(op["cmds"], a["parts"]):
                    if c["op"] == "log": self.log(c)
                    self.message(ref_err[at:p])
                    at = p
            elif op["op"] == "log": self.log(op)
            if op["op"] != "script": self.message(text)
            ra = a["err"]
            self.count("operations")
            for k, n, w in b["hit"]:
                self.count({"error": "error_on_" + k, "EINTR": "interrupted_call", "short": "short_write", "full": "disk_full"}.get(w, w))
            for f in self.touched:
                if any(k == "mkdir" or os.path.normpath(n) == f.path and not (k == "write" and w in ("short", "EINTR")) for k, n, w in b["hit"]): f.excused = True
            # results
            bad_refusal = op["op"] in ("tune",) and any(op.get(k) == 0 for k in ("tol", "evals", "search"))
            if bad_refusal and a["r"] is None and text.count(b"\n") < 1: self.bad("silent", "nothing was logged about a setting which was refused")
            if repr(a["r"]) != repr(b["r"]):
                if op["op"] in ("log", "script") and (b["hit"] or any(not f.usable for f in self.touched)) and isinstance(b["r"], str):
                    self.count("setting_the_log_file_failed")
                    return       # (where messages go after this is not said anywhere)
                self.bad("result-changed", "the outcome is %s, but without logging it is %s" % (b["r"], a["r"]))
            if isinstance(a["r"], str) and a["r"].startswith("raises"): self.count("operations_raising")
            if op["op"] == "ask":
                self.count("queries")
                if text: self.count("queries_with_messages")
            # where the messages went
            if b["out"] != out: self.bad("stdout", "%d bytes had been written to standard output" % (b["out"] - out))
            if not self.plan.get("full"):
                got = self.err_text[rr:b["err"]]
                if got != self.want_err: self.bad("stderr", "%d messages (%d bytes, beginning %r) had been written to standard error, not %d (%d bytes, beginning %r)" % (got.count(b"\n"), len(got), got[:120], self.want_err.count(b"\n"), len(self.want_err), self.want_err[:120]))
                rr = b["err"]
            self.check_files(b["files"], False)
        # the end
        self.at, self.what = len(real), "the end of the process"
        C_out, C_err = os.stat(root + "/real.out").st_size, 0 if self.plan.get("full") else os.stat(root + "/real.err").st_size
        if C_out != out: self.bad("stdout", "%d bytes had been written to standard output" % C_out)
        if C_err != rr: self.bad("stderr", "something more had been written to standard error")
        self.check_files({f: (len(t), hashlib.sha1(t).digest()) for f, t in files_in(root + "/real").items()}, True)


def run_session(plan, root, name, seconds):
    """Runs a session in a process of its own, with limited computing time; how did that end?"""
    pid = os.fork()
    if pid == 0:
        C.prctl(1, signal.SIGKILL)
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds))
        try: Session(plan, root, name).go()
        except BaseException:
            import traceback
            with open(os.path.join(root, name + ".trace"), "w") as f: traceback.print_exc(file=f)
            os._exit(99)
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99: raise RuntimeError(open(os.path.join(root, name + ".trace")).read())
    return st


def child(plan, root, pipe):
    cnt, res, text = {}, {"outcome": "ok"}, ""
    judge = Judge(plan)
    try:
        os.write(pipe, b"O-1 the session with the initial logging\n")
        st = run_session(plan, root, "ref", 3)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            os.write(pipe, b'R{"outcome": "ok", "hash": "abandoned", "sig": "abandoned", "log": "", "cnt": {"abandoned_slow": 1}}\n')
            return
        if st or not os.path.exists(root + "/ref.events"): raise RuntimeError("the session with the initial logging ended with status %x" % st)
        ref, _ = pickle.load(open(root + "/ref.events", "rb"))
        os.write(pipe, b"O-1 the session proper\n")
        st = run_session(plan, root, "real", 20)
        if not os.path.exists(root + "/real.events"): raise S.Violation("process-died", "the session, which goes on if nothing is switched, ended with status %x" % st)
        real, log = pickle.load(open(root + "/real.events", "rb"))
        judge.err_text = b"" if plan.get("full") else open(root + "/real.err", "rb").read()
        text = log.decode("latin-1") + repr([(e["r"], e["hit"], e["err"], e["out"], sorted(e["files"].items())) for e in real])
        judge.go(ref, real, open(root + "/ref.err", "rb").read(), root)
        if st: raise S.Violation("process-died", "the process did not end as it should (status %x)" % st)
    except S.Violation as v:
        res = {"outcome": "violation", "cls": v.args[0], "msg": v.args[1]}
    except BaseException as e:
        import traceback
        res = {"outcome": "error", "cls": "", "msg": "".join(traceback.format_exception(e))}
    res["log"] = text[-60000:]
    res["sig"] = hashlib.sha1(text.encode()).hexdigest()[:16]
    res["hash"] = hashlib.sha1((text + res["outcome"] + res.get("msg", "")).encode()).hexdigest()[:16]
    judge.count("simulated_calls", text.count("\n"))
    if plan.get("full"): judge.count("stderr_full")
    if plan.get("endfaults"): judge.count("error_on_exit")
    res["cnt"] = judge.cnt
    os.write(pipe, ("R" + json.dumps(res) + "\n").encode())


# ------------------------------------------------------------------------------------------------ plans
NAMES = ["taken", "here/file", "log1", "log1", "messages.log", "log2", "logs/a", "logs/a", "logs/b.txt", "deep/down/here", "./log1", "logs/../log2", "@/log1", "@/other/one"]
ODD = ["with space", "w\u00f6rter", "-", "a'b", "x;y"]


class Gen(S.Gen):
    def logop(self, script):
        r = self.r
        c = {"op": "log"}
        v = r.random()
        if v < .45: c["on"] = r.random() < .5
        elif v < .85 or script and v < .9: c["file"] = self.name(script)
        else: c.update(on=r.random() < .5, file=self.name(script))
        return c

    def name(self, script):
        r = self.r
        if r.random() < .1: return r.choice(["here", "here/file/inside", "taken/in/side", "taken/file"])
        if not script and r.random() < .12: return r.choice(ODD)
        if self.names and r.random() < .35: n = r.choice(self.names)
        else: n = r.choice(NAMES)
        if script:
            while n[0] == "@" or "/../" in n: n = r.choice(NAMES)
        self.names.append(n)
        return n

    def loud(self, script):
        """Something which may log something."""
        r = self.r
        k = r.choice(["tol", "evals", "search"]) if not script else "command"
        op = {"op": "tune", "how": "command" if script else k}
        good = {"tol": 1e-3, "evals": r.choice([64, 256]), "search": 64, "method": r.choice(list(S.METHODS))}
        for x in S.USES[op["how"]]: op[x] = good[x]
        for x in ("evals", "search", "tol"):
            if x in op and r.random() < (.45 if script else .85): op[x] = 0
        return op

    def poison(self):
        """A definition with a number for which integrals have no value."""
        r = self.r
        for _ in range(20):
            op = r.choice([lambda: self.lossfn(), lambda: self.compgroup(), lambda: self.detfn("sd"), lambda: self.detfn("mean"), lambda: self.detfn("rate"), lambda: self.setdist()])()
            if S.judge(self.m, op, {}) != "ok": continue
            bad = r.choice([NAN, NAN, INF])
            if op["op"] == "lossfn": op["data"][r.randrange(len(op["data"]))][0 if op["kind"] == "simple" else 2] = bad
            elif op["op"] == "compgroup": op[r.choice(["cadj", "dadj"])] = bad
            elif op["op"] == "detfn":
                x = op["params"][1] if op["type"] in ("linear", "loglog") else op["params"]
                x[r.randrange(len(x))] = bad
            else: op["dist"][0] = bad
            return op
        return self.loud(False)


def make_plan(seed, i, tier):
    r = random.Random("messages %d:%d" % (seed, i))
    g = Gen(r)
    g.names = []
    plan = {"property": "C20", "seed": seed, "run": i}
    ops = [{"op": "tune", "how": "settings", "tol": 0.01, "evals": r.choice([64, 128])}, {"op": "tune", "how": "search", "search": 64}]
    for p in ("log1", "logs/a", "messages.log"):
        if r.random() < .3: ops.append({"op": "file", "path": p, "text": "what was there before\n" * r.choice([1, 1, 500])})
    for make, n in ((lambda: g.detfn("rate"), 1), (lambda: g.detfn("mean"), 1), (lambda: g.detfn("sd"), 1), (g.probfn, 1), (g.im, 1), (g.edp, 2), (g.fragfn, 2), (g.lossfn, 2), (g.compgroup, 2), (g.setdist, 1), (g.structure, 1)):
        for _ in range(n):
            o = None
            for _ in range(8):
                o = make()
                if S.judge(g.m, o, {}) == "ok": break
            if S.judge(g.m, o, {}) != "ok": continue
            g.note(o)
            if o["op"] == "structure":
                ops += [dict(o, groups=[])] + [{"op": "add", "id": o["id"], "group": x} for x in o["groups"]]
            else: ops.append(o)

    def faults(o):
        if r.random() > .3: return o
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            v = r.random()
            if v < .35: fs.append({"call": "open", "nth": r.choice([1, 1, 2]), "what": r.choice(["error", "error", "error", "eintr"]), "err": r.choice([errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EIO]), "sticky": int(r.random() < .4)})
            elif v < .5: fs.append({"call": "mkdir", "nth": 1, "what": "error", "err": r.choice([errno.EACCES, errno.ENOSPC, errno.EIO]), "sticky": int(r.random() < .4)})
            elif v < .7: fs.append({"call": "write", "nth": r.choice([1, 1, 2, 3]), "what": "error", "err": r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]), "sticky": int(r.random() < .6)})
            elif v < .85: fs.append({"call": "write", "nth": r.choice([1, 1, 2]), "what": r.choice(["short", "short", "eintr"]), "arg": r.randint(0, 9000), "sticky": int(r.random() < .4)})
            else: fs.append({"call": "close", "nth": 1, "what": "error", "err": errno.EIO})
        for f in fs:
            if f["what"] == "eintr": f["sticky"] = 0
        o["faults"] = fs
        return o
    SLOWEST = ("Cost0", "Cost1", "E_cost", "DeaggregatedCost", "CostsByFate", "ComponentsByEDP", "ComponentsByFragility", "fragfn", "get_IM", "size")
    quiet = r.random() < .3      # no messages in thousands
    for _ in range(r.randint(5, 14) if not tier else r.randint(6, 24)):
        v = r.random()
        if v < .28: o = g.logop(False)
        elif v < .45: o = g.loud(False)
        elif v < .6:
            cmds = []
            for _ in range(r.randint(1, 6)):
                w = r.random()
                if w < .45: c = g.logop(True)
                elif w < .85: c = g.loud(True)
                else:
                    c = g.any([])
                    if c["op"].startswith("import") or not S.scriptable(c) or S.judge(g.m, c, {}) != "ok" or c["op"] in ("structure", "inputdir"): continue
                    g.note(c)
                cmds.append(c)
            o = {"op": "script", "cmds": cmds}
        elif v < .7: o = g.poison()
        elif v < .74:
            o = g.any([])
            if o["op"].startswith("import") or o["op"] in ("structure", "inputdir"): continue
        else:
            qs = [q for q in S.queries(g.m) if q[2] not in SLOWEST and q[2] != "describe"]
            if quiet: qs = [q for q in qs if q[2] not in ("E_annual_cost", "lambda_cost", "AnnualCost")]
            slow = [q for q in qs if q[2] not in S.QUICK]
            o = {"op": "ask", "q": list(r.choice(slow if slow and r.random() < .8 else qs))}
        if S_note(g, o): ops.append(faults(o) if o["op"] != "file" else o)
    if r.random() < .08: plan["full"] = 1
    if r.random() < .12: plan["endfaults"] = [{"call": r.choice(["write", "open", "close"]), "nth": 1, "what": "error", "err": errno.ENOSPC, "sticky": 1}]
    plan["ops"] = ops
    return plan


def S_note(g, o):
    """Keeps track of what is defined."""
    if o["op"] in S.KINDS + ["collapse", "demolition", "rebuildcost", "demolitioncost", "add", "remove"]:
        j = S.judge(g.m, o, {})
        if j == "skip": return False
        if j == "ok":
            past = dict(g.past)
            g.note(o)
            if "NaN" in json.dumps(o) or "Infinity" in json.dumps(o): g.past = past     # (scripts have no such numbers)
    return True


def simplify(op):
    if "faults" in op: yield {k: v for k, v in op.items() if k != "faults"}
    if op["op"] == "script" and len(op["cmds"]) == 1: yield dict(op["cmds"][0])
    if op["op"] == "log" and op.get("on") is not None and op.get("file"):
        yield {"op": "log", "on": op["on"]}
        yield {"op": "log", "file": op["file"]}


def warm():
    S.warm(lambda *a: {"ops": []})
    S.warm()


if __name__ == "__main__":
    import driver
    driver.main(sys.modules["__main__"])
