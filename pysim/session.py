"""Sessions with the real compiled library: definitions, redefinitions, imports and scripts through the real src/pyslat.py and
src/SlatInterpreter.py, with files in simulated storage (fsshim.c) whose reads fail as planned. After every operation, the
registries and a sample of queries are compared with a reference: formulas where there are any, and otherwise the same query
of objects built afresh from the model of what should be in force.

driver.py has the commands."""
import ctypes, errno, gc, hashlib, io, json, math, os, random, re, signal, sys, tempfile

import numpy as np
import pyslatcore as core
import pyslat
from antlr4 import CommonTokenStream, InputStream, ParseTreeWalker
from antlr4.error.ErrorStrategy import BailErrorStrategy
from slatLexer import slatLexer
from slatParser import slatParser
import SlatInterpreter as SI

C = ctypes.CDLL(None)
C.fs_log.restype = ctypes.c_char_p
CALLS = ["open", "write", "close", "mkdir", "fsync", "rename", "truncate", "unlink", "ropen", "read"]
WHATS = ["error", "short", "eintr", "kill", "lost", "sigint"]
KINDS = ["detfn", "probfn", "im", "edp", "fragfn", "lossfn", "compgroup", "structure"]
MU = {"mean_x": core.MEAN_X, "median_x": core.MEDIAN_X, "mean_ln_x": core.MEAN_LN_X}
SD = {"sd_ln_x": core.SD_LN_X, "sd_x": core.SD_X}
TIMEOUT = 30
MORE = {}  # operations of other workers: what to do in place of judge, apply, run_py, text_of, scriptable and resolve
LISTS = ("faults", "cmds")


class Violation(Exception):
    pass


# ------------------------------------------------------------------------------------------------ the model
class Model:
    """What should be in force. Deterministic and probability functions are taken by value; everything else by identifier."""
    def __init__(self):
        self.t = {k: {} for k in KINDS}
        self.indir = None
        self.tune = None  # the integration settings, where they are looked at (tuning.py)
        self.reset = False  # nothing has been calculated since the statistics were reset

    def copy(self):
        m = type(self)()
        m.t = {k: dict(v) for k, v in self.t.items()}
        m.t["structure"] = {k: dict(v, groups=list(v["groups"])) for k, v in self.t["structure"].items()}
        m.indir = self.indir
        m.tune = self.tune and dict(self.tune)
        m.reset = self.reset
        return m

    def replacing(self, kind, i):
        """An object is about to be defined (perhaps again)."""

    def group_im(self, g):
        return self.t["edp"][self.t["compgroup"][g]["edp"]]["im"]

    def spec(self, kind, i):
        """Everything a result depends on."""
        v = self.t[kind][i]
        if kind == "edp": return [i, v["fn"], v["im"], self.spec("im", v["im"])] + ([v["fn2"]] if "fn2" in v else [])
        if kind == "compgroup":
            return [v["n"], v["cadj"], v["dadj"], self.spec("edp", v["edp"]), v["frag"], self.spec("fragfn", v["frag"])] + [x and self.spec("lossfn", x) for x in (v["cost"], v["delay"])]
        if kind == "structure": return [v["rebuild"], v["demolition"], v["im"], v["im"] and self.spec("im", v["im"]), [[g, self.spec("compgroup", g)] for g in v["groups"]]]
        return v


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def dist_ok(d):
    return d is not None and number(d[0]) and number(d[1]) and d[2] in MU and d[3] in SD and not (d[3] == "sd_x" and d[2] != "mean_x")


def mu_ln(d):
    m, s, mt, st = d
    if mt == "mean_ln_x": return m, s
    if mt == "median_x": return math.log(m), s
    if st == "sd_x": s = math.sqrt(math.log(1 + s * s / (m * m)))
    return math.log(m) - s * s / 2, s


def detfn_ok(ty, p):
    if ty in ("power law", "hyperbolic"): return len(p) >= (2 if ty == "power law" else 3) and all(map(number, p))
    if ty not in ("linear", "loglog"): return False
    x, y = p
    return all(map(number, x + y)) and len(x) == len(y) and len(x) >= 2 and all(a < b for a, b in zip(x, x[1:])) and (ty == "linear" or x[0] > 0)


def read_table(text):
    """The numbers in a data file, or nothing if it is not one. (A file with one row of data is not used: the library refuses it.)"""
    rows = []
    for line in text.split("\n")[2:]:
        line = line.split("#")[0].split()
        if line: rows.append(line)
    try: rows = [[float(x) for x in r] for r in rows]
    except ValueError: return None
    if len(rows) < 2 or len({len(r) for r in rows}) != 1: return None
    return rows


def import_prob(text):
    rows = read_table(text)
    if rows is None or len(rows[0]) < 3: return None
    x, mu, sg = [0.0], [0.0], [0.0]
    for r in rows:
        v = [y for y in r[1:] if y != 0]
        if any(y < 0 for y in v): return None
        l = [math.log(y) for y in v]
        m = math.fsum(l) / len(l)
        x.append(r[0]); mu.append(math.exp(m)); sg.append(math.sqrt(math.fsum((y - m) ** 2 for y in l) / (len(l) - 1)))
    if not detfn_ok("linear", [x, mu]): return None
    return ["median_x", ["linear", [x, mu]], "sd_ln_x", ["linear", [x, sg]]]


def import_im(text):
    rows = read_table(text)
    if rows is None or len(rows[0]) < 2: return None
    x, y = [r[0] for r in rows], [r[1] for r in rows]
    return ["loglog", [x, y]] if detfn_ok("loglog", [x, y]) else None


def data_path(m, name):
    p = name
    if not os.path.dirname(p): p = os.path.join(m.indir or ".", p)
    return os.path.normpath(p if os.path.splitext(p)[1] else p + ".csv")


def resolve(op, vars_):
    """The operation as it is meant: with the values of variables, as far as they have been set."""
    if op["op"] == "tune": return dict(op, **{k: vars_.get(v) for k, v in op.get("vars", {}).items()})
    if op["op"] in MORE: return MORE[op["op"]].resolve(op, vars_)
    v = op.get("var")
    if not v: return op
    value = vars_.get(v)

    def put(x):  # the first number
        if isinstance(x, list):
            for i, y in enumerate(x):
                z, done = put(y)
                if done: return x[:i] + [z] + x[i + 1:], True
            return x, False
        return (value, True) if number(x) else (x, False)
    for key in ("params", "pts", "data", "dist"):
        if key in op: return dict(op, **{key: put(op[key])[0]})
    return op


METHODS = {"binary": "Binary Subdivision", "revbin": "Reverse Binary Subdivision", "lowrev": "Low-First Reverse Binary Subdivision", "scattered": "Scattered", "directed": "Directed"}
METHOD_ID = {"binary": "BINARY_SUBDIVISION", "revbin": "REVERSE_BINARY_SUBDIVISION", "lowrev": "LOW_FIRST_REVERSE_BINARY_SUBDIVISION", "scattered": "SCATTERED", "directed": "DIRECTED"}
USES = {"command": ("tol", "evals", "method", "search"), "settings": ("tol", "evals"), "tol": ("tol",), "evals": ("evals",), "search": ("search",), "method": ("method",), "statistics": (), "report": ()}


def judge(m, op, files):
    """'ok', 'bad' (must be refused), or 'skip' (not something this property is about)."""
    k, t = op["op"], m.t
    if k in MORE: return MORE[k].judge(m, op, files)
    if k in ("file", "gc"): return "ok"
    if k == "tune": return "ok" if all(number(op[x]) for x in USES[op["how"]] if x != "method" and x in op) and op.get("method", "directed") in METHODS else "bad"
    if k == "set": return "ok"
    if k == "inputdir": return "ok"
    if k == "detfn":
        return "ok" if detfn_ok(op["type"], op["params"]) else "bad"
    if k == "probfn":
        if op["mf"] not in t["detfn"] or op["sf"] not in t["detfn"]: return "bad"
        return "ok" if op.get("type", "lognormal") == "lognormal" and dist_ok([1, 1, op["mu"], op["sd"]]) else "bad"
    if k == "im": return "ok" if op["fn"] in t["detfn"] else "bad"
    if k == "edp":
        if op["im"] not in t["im"] or ("of" not in op and op["fn"] not in t["probfn"]) or any(x not in t["edp"] for x in op.get("of", ())): return "bad"
        if any("fn2" in t["edp"][x] for x in op.get("of", ())): return "skip"      # (the demand of two, one of which is that of two)
        return "skip" if op["id"] in t["edp"] and t["edp"][op["id"]]["im"] != op["im"] else "ok"
    if k in ("collapse", "demolition"): return "ok" if op["id"] in t["im"] and dist_ok(op["dist"]) else "bad"
    if k in ("rebuildcost", "demolitioncost"): return "ok" if op["id"] in t["structure"] and dist_ok(op["dist"]) else "bad"
    if k == "fragfn":
        ds = [p + [op["mu"], op["sd"]] for p in op["pts"]]
        if not ds or not all(map(dist_ok, ds)): return "bad"
        l = [mu_ln(d)[0] for d in ds]
        return "ok" if all(a < b for a, b in zip(l, l[1:])) else "bad"
    if k == "lossfn":
        if not op["data"]: return "bad"
        if op["kind"] == "bilevel": return "ok" if all(len(d) == 5 and all(map(number, d)) for d in op["data"]) else "bad"
        return "ok" if all(dist_ok(d + [op["mu"], op["sd"]]) for d in op["data"]) else "bad"
    if k == "compgroup":
        if op["edp"] not in t["edp"] or op["frag"] not in t["fragfn"] or op["cost"] not in t["lossfn"] or op["delay"] not in [None] + list(t["lossfn"]): return "bad"
        return "skip" if op["id"] in t["compgroup"] and m.group_im(op["id"]) != t["edp"][op["edp"]]["im"] else "ok"
    if k == "structure":
        if any(g not in t["compgroup"] for g in op["groups"]): return "bad"
        return "ok" if len({m.group_im(g) for g in op["groups"]}) < 2 else "bad"
    if k in ("add", "remove"):
        if op["id"] not in t["structure"] or op["group"] not in t["compgroup"]: return "bad"
        s = t["structure"][op["id"]]
        if k == "remove": return "ok" if op["group"] in s["groups"] else "skip"
        return "ok" if not s["groups"] or s["im"] == m.group_im(op["group"]) else "bad"
    if k in ("importprobfn", "importimfn"):
        text = files.get(data_path(m, op["file"]))
        return "ok" if text is not None and (import_prob if k == "importprobfn" else import_im)(text) else "bad"
    raise ValueError(k)


def apply(m, op, files):
    k, t, i = op["op"], m.t, op.get("id")
    if k in MORE: return MORE[k].apply(m, op)
    m.replacing({"importprobfn": "probfn", "importimfn": "im"}.get(k, k), i)
    if k == "detfn": t["detfn"][i] = [op["type"], op["params"]]
    elif k == "probfn": t["probfn"][i] = [op["mu"], t["detfn"][op["mf"]], op["sd"], t["detfn"][op["sf"]]]
    elif k == "im": t["im"][i] = {"fn": t["detfn"][op["fn"]], "collapse": None, "demolition": None}
    elif k == "edp": t["edp"][i] = dict({"im": op["im"]}, **({"fn": t["edp"][op["of"][0]]["fn"], "fn2": t["edp"][op["of"][1]]["fn"]} if "of" in op else {"fn": t["probfn"][op["fn"]]}))
    elif k in ("collapse", "demolition"): t["im"][i] = dict(t["im"][i], **{k: op["dist"]})
    elif k == "rebuildcost": t["structure"][i]["rebuild"] = op["dist"]
    elif k == "demolitioncost": t["structure"][i]["demolition"] = op["dist"]
    elif k == "fragfn": t["fragfn"][i] = [p + [op["mu"], op["sd"]] for p in op["pts"]]
    elif k == "lossfn": t["lossfn"][i] = [op["kind"], [d if op["kind"] == "bilevel" else d + [op["mu"], op["sd"]] for d in op["data"]]]
    elif k == "compgroup": t["compgroup"][i] = {x: op[x] for x in ("edp", "frag", "cost", "delay", "n", "cadj", "dadj")}
    elif k == "structure": t["structure"][i] = {"groups": list(op["groups"]), "im": m.group_im(op["groups"][-1]) if op["groups"] else None, "rebuild": None, "demolition": None}
    elif k == "add":
        t["structure"][i]["groups"].append(op["group"]); t["structure"][i]["im"] = m.group_im(op["group"])
    elif k == "remove": t["structure"][i]["groups"].remove(op["group"])
    elif k == "importprobfn": t["probfn"][i] = import_prob(files[data_path(m, op["file"])])
    elif k == "importimfn": t["im"][i] = {"fn": import_im(files[data_path(m, op["file"])]), "collapse": None, "demolition": None}
    elif k == "inputdir": m.indir = op["path"]
    elif k == "tune":
        m.reset |= op["how"] == "statistics"
        for x in USES[op["how"]]:
            if x in op and (x == "method" or op[x] > 0): m.tune[x] = op[x]  # one which is not positive is ignored


# ------------------------------------------------------------------------------------------------ operations on the real code
def mkdist(d):
    return None if d is None else pyslat.MakeLogNormalDist(d[0], MU[d[2]], d[1], SD[d[3]])


def run_py(op):
    k, P, i = op["op"], pyslat, op.get("id")
    if k in MORE: return MORE[k].run(op)
    if k == "detfn": P.detfn(i, op["type"], [list(x) if isinstance(x, list) else x for x in op["params"]])
    elif k == "probfn": P.probfn(i, op.get("type", "lognormal"), [MU[op["mu"]], P.detfn.lookup(op["mf"])], [SD[op["sd"]], P.detfn.lookup(op["sf"])])
    elif k == "im": P.im(i, P.detfn.lookup(op["fn"]))
    elif k == "edp" and "of" in op: P.edp(i, P.im.lookup(op["im"]), P.edp.lookup(op["of"][0]), P.edp.lookup(op["of"][1]))
    elif k == "edp": P.edp(i, P.im.lookup(op["im"]), P.probfn.lookup(op["fn"]))
    elif k == "collapse": P.im.lookup(i).SetCollapse(mkdist(op["dist"]))
    elif k == "demolition": P.im.lookup(i).SetDemolition(mkdist(op["dist"]))
    elif k == "rebuildcost": P.structure.lookup(i).setRebuildCost(mkdist(op["dist"]))
    elif k == "demolitioncost": P.structure.lookup(i).setDemolitionCost(mkdist(op["dist"]))
    elif k == "fragfn": P.fragfn_user(i, {"mu": MU[op["mu"]], "sd": SD[op["sd"]]}, op["pts"])
    elif k == "lossfn":
        if op["kind"] == "bilevel": P.bilevellossfn(i, op["data"])
        else: P.simplelossfn(i, {"mu": MU[op["mu"]], "sd": SD[op["sd"]]}, op["data"])
    elif k == "compgroup":
        def loss(x):
            f = x and P.lossfn.lookup(x)
            if x and not f: raise LookupError(x)  # the caller's business
            return f
        P.compgroup(i, P.edp.lookup(op["edp"]), P.fragfn.lookup(op["frag"]), loss(op["cost"]), loss(op["delay"]), op["n"], op["cadj"], op["dadj"])
    elif k == "structure": P.structure(i)
    elif k == "add": P.structure.lookup(i).AddCompGroup(P.compgroup.lookup(op["group"]))
    elif k == "remove": P.structure.lookup(i).RemoveCompGroup(P.compgroup.lookup(op["group"]))
    elif k == "importprobfn": P.ImportProbFn(i, op["file"])
    elif k == "importimfn": P.ImportIMFn(i, op["file"])
    elif k == "inputdir": P.set_input_directory(op["path"])
    elif k == "gc": gc.collect()
    elif k == "tune":
        h = op["how"]
        if h == "settings": P.IntegrationSettings(op["tol"], op["evals"])
        elif h == "tol": P.Set_Integration_Tolerance(op["tol"])
        elif h == "evals": P.Set_Integration_Eval_Limit(op["evals"])
        elif h == "search": P.Set_Integration_Search_Limit(op["search"])
        elif h == "method": P.Set_Integration_Method(getattr(P.INTEGRATION_METHOD, METHOD_ID[op["method"]]) if op["method"] in METHODS else 17)
        elif h == "statistics": P.Reset_Statistics()
        else: P.Format_Statistics()
    else: raise ValueError(k)


def text_of(op):
    k, i = op["op"], op.get("id")
    if k in MORE: return MORE[k].text(op)
    special = [op.get("var") and "$" + op["var"] or op.get("expr") and "$(%r*1)"]

    def num(x):
        s = special[0]
        if s and (s[1] != "(" or number(x)):
            special[0] = None
            return s % x if s[1] == "(" else s
        return repr(x)
    opts = lambda: "--mu %s --sd %s" % (op["mu"], op["sd"])
    pairs = lambda ps: ", ".join("[%s, %s]" % (num(a), num(b)) for a, b in ps)
    dist = lambda: "%s, %s --mu %s --sd %s" % ((num(op["dist"][0]), num(op["dist"][1])) + tuple(op["dist"][2:]))
    if k == "set": return "set %s %s" % (op["name"], "$(%r)" % op["value"] if isinstance(op["value"], list) else repr(op["value"]))
    if k == "tune" and op["how"] in ("statistics", "report"): return "intstats " + {"statistics": "reset", "report": "print"}[op["how"]]
    if k == "tune":
        def value(x):
            if x in op.get("vars", {}): return "$" + op["vars"][x]
            return "$(%r*1)" % op[x] if x in op.get("exprs", ()) else repr(op[x])
        return "integration maq %s %s" % (value("tol"), value("evals")) + (" %s %s" % (op["method"], value("search")) if "method" in op else "")
    if k == "detfn":
        p = op["params"]
        if op["type"] in ("linear", "loglog"): return "detfn %s %s %s" % (i, op["type"], pairs(list(zip(*p))))
        return "detfn %s %s %s" % (i, {"power law": "powerlaw"}.get(op["type"], op["type"]), ", ".join(map(num, p)))
    if k == "probfn": return "probfn %s lognormal %s, %s %s" % (i, op["mf"], op["sf"], opts())
    if k == "im": return "im %s %s" % (i, op["fn"])
    if k == "edp": return "edp %s %s %s" % (i, op["im"], op["fn"])
    if k in ("collapse", "demolition", "rebuildcost", "demolitioncost"): return "%s %s %s" % (k, i, dist())
    if k == "fragfn": return "fragfn %s %s %s" % (i, pairs(op["pts"]), opts())
    if k == "lossfn":
        if op["kind"] == "bilevel": return "lossfn %s bilevel %s" % (i, ", ".join("[%s]" % ", ".join(map(num, d)) for d in op["data"]))
        return "lossfn %s simple %s %s" % (i, pairs(op["data"]), opts())
    if k == "compgroup": return "compgroup %s %s %s %s %s%d %r %r" % (i, op["edp"], op["frag"], op["cost"], op["delay"] + " " if op["delay"] else "", op["n"], op["cadj"], op["dadj"])
    if k == "structure": return "structure %s %s" % (i, ", ".join(op["groups"]))
    if k in ("importprobfn", "importimfn"): return "%s %s %s" % (k, i, op["file"])
    if k == "inputdir": return "inputdir %s" % op["path"]
    raise ValueError(k)


def scriptable(op):
    """Is there a command for it?"""
    k = op["op"]
    if k in MORE: return MORE[k].scriptable(op)
    if k in ("add", "remove", "gc", "file", "script") or "of" in op or "dist" in op and not op["dist"]: return False
    if k == "detfn": return op["type"] in ("power law", "hyperbolic", "linear", "loglog") and (len(op["params"]) == {"power law": 2, "hyperbolic": 3}[op["type"]] if op["type"] in ("power law", "hyperbolic") else len(op["params"][0]) == len(op["params"][1]) > 0)
    if k == "probfn": return op.get("type", "lognormal") == "lognormal"
    if k == "fragfn": return bool(op["pts"])
    if k == "lossfn": return bool(op["data"]) and (op["kind"] != "bilevel" or all(len(d) == 5 for d in op["data"]))
    if k == "compgroup": return op["cost"] is not None
    if k == "tune": return op["how"] in ("command", "statistics", "report")
    if k == "structure": return bool(op["groups"])
    return True


def script_text(op):
    """A missing semicolon after command 'cut' makes the script unreadable."""
    s = "# a script\n"
    for n, c in enumerate(op["cmds"]):
        s += text_of(c) + ("\n" if op.get("cut") == n else ";\n")
    return s


# ------------------------------------------------------------------------------------------------ reference results
class Ref:
    """The objects of the model, built afresh without pyslat.py and its registries."""
    def __init__(self, m):
        self.m, self.made = m, {}

    def get(self, kind, i):
        if (kind, i) not in self.made: self.made[kind, i] = getattr(self, kind)(self.m.t[kind][i], i)
        return self.made[kind, i]

    def fn(self, s):
        ty = {"power law": core.PLC, "hyperbolic": core.NLH, "linear": core.LIN, "loglog": core.LOGLOG}[s[0]]
        return core.factory3(ty, s[1][0], s[1][1]) if s[0] in ("linear", "loglog") else core.factory2(ty, s[1])

    def prob(self, v): return core.MakeLogNormalProbabilisticFn(self.fn(v[1]), MU[v[0]], self.fn(v[3]), SD[v[2]])
    def dist(self, d): return core.MakeLogNormalDist(float(d[0]), MU[d[2]], float(d[1]), SD[d[3]])
    def detfn(self, v, i): return self.fn(v)
    def probfn(self, v, i): return self.prob(v)

    def im(self, v, i):
        f = core.MakeIM(self.fn(v["fn"]))
        if v["collapse"]: f.SetCollapse(self.dist(v["collapse"]))
        if v["demolition"]: f.SetDemolition(self.dist(v["demolition"]))
        return f

    def edp(self, v, i):
        im = self.get("im", v["im"])
        e = [core.MakeEDP(im, self.prob(v[k]), "ref") for k in ("fn", "fn2") if k in v]
        return e[0] if len(e) == 1 else core.MakeCompoundEDP(im, e[0], e[1], "ref")

    def fragfn(self, v, i): return core.MakeFragilityFn([self.dist(d) for d in v])

    def lossfn(self, v, i):
        if v[0] == "bilevel": return core.MakeBiLevelLossFn([core.MakeBiLevelLoss(*d) for d in v[1]])
        return core.MakeSimpleLossFn([self.dist(d) for d in v[1]])

    def compgroup(self, v, i):
        return core.MakeCompGroup(self.get("edp", v["edp"]), self.get("fragfn", v["frag"]), v["cost"] and self.get("lossfn", v["cost"]),
                                  self.get("lossfn", v["delay"]) if v["delay"] else core.MakeSimpleLossFn([core.MakeLogNormalDist()]), v["n"], v["cadj"], v["dadj"], "ref")

    def structure(self, v, i):
        s = core.MakeStructure()
        for g in v["groups"]: s.AddCompGroup(self.get("compgroup", g))
        if v["im"] and not v["groups"]:  # emptied
            one, p = core.MakeLogNormalDist(1.0, core.MEAN_X, 0.5, core.SD_LN_X), self.fn(["power law", [0.1, 1.0]])
            g = core.MakeCompGroup(core.MakeEDP(self.get("im", v["im"]), core.MakeLogNormalProbabilisticFn(p, core.MEDIAN_X, p, core.SD_LN_X), "ref"), core.MakeFragilityFn([one]), core.MakeSimpleLossFn([one]), core.MakeSimpleLossFn([one]), 1, 1.0, 1.0, "ref")
            s.AddCompGroup(g); s.RemoveCompGroup(g)
        if v["rebuild"]: s.setRebuildCost(self.dist(v["rebuild"]))
        if v["demolition"]: s.setDemolitionCost(self.dist(v["demolition"]))
        return s


def norm(v):
    if isinstance(v, (bool, str, Either)) or v is None: return v
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, pyslat.lognormaldist): return [v.mean(), v.sd_ln()]
    if hasattr(v, "get_mean_X"): return [v.get_mean_X(), v.get_sigma_lnX()]
    return [norm(x) for x in v]


def result(f):
    try: return norm(f())
    except Exception as e: return "raises " + type(e).__name__


class Either(tuple):
    """One of several results, all of which are right."""


def close(a, b, tol=1e-9):
    if isinstance(b, Either): return any(close(a, x, tol) for x in b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= max(tol * max(abs(a), abs(b)), 1e-14)  # (small probabilities are differences)
    return a == b


def tolerance(m, kind, i, n):
    """How far apart two results may be (relatively).  What is imported is computed from the numbers in
    the file, and may be computed in another order: integrals over it and their derivatives (whose step
    is 1e-8) enlarge a difference in the last bit, and whether an integral converges may depend on it:
    None."""
    if n in QUICK: return 1e-9
    return None if '"linear", [[0.0, ' in json.dumps(m.spec(kind, i)) else 1e-6


def det(s, x):
    ty, p = s
    if ty == "power law": return p[0] * x ** p[1]
    if ty == "hyperbolic": return 0.0 if x >= p[1] else p[2] * math.exp(p[0] / math.log(x / p[1]))
    xs, ys = p
    if x <= xs[0]: return float(ys[0])
    if x >= xs[-1]: return float(ys[-1])
    k = max(i for i in range(len(xs)) if xs[i] <= x)
    if ty == "linear": return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
    a, b, u, v = math.log(xs[k]), math.log(xs[k + 1]), math.log(ys[k]), math.log(ys[k + 1])
    return math.exp(u + (v - u) * (math.log(x) - a) / (b - a))


def moments(v, x):
    l, s = mu_ln([det(v[1], x), det(v[3], x), v[0], v[2]])
    return {"MeanLn": l, "SD_ln": s, "Median": math.exp(l), "Mean": math.exp(l + s * s / 2), "SD": math.exp(l + s * s / 2) * math.sqrt(math.exp(s * s) - 1)}


def cdf(d, x):
    if d is None: return 0.0
    l, s = mu_ln(d)
    return 0.5 * math.erfc(-(math.log(x) - l) / s / math.sqrt(2))


XS = [0.25, 0.6, 1.3]
TWICE = [1.3, 0.6, 0.6, 1.3]
ES = [0.004, 0.02, 0.07]
MOM = ["Mean", "MeanLn", "Median", "SD_ln", "SD"]
IMP = ["pCollapse", "pDemolition", "pRepair"]


def queries(m):
    """All queries of all objects: (kind, id, query, argument)."""
    t = m.t
    q = [(k, i, "describe", None) for k in ("detfn", "probfn", "im", "edp", "fragfn", "lossfn", "compgroup") for i in t[k]]
    for i in t["detfn"]: q += [("detfn", i, "ValueAt", x) for x in XS]
    for i in t["probfn"]: q += [("probfn", i, n, x) for n in MOM for x in XS[:2]] + [("probfn", i, "X_at_exceedence", 0.6)]
    for i in t["im"]: q += [("im", i, n, x) for n in ["getlambda"] + IMP for x in [0.25, 1.3, XS, TWICE, []]] + [("im", i, "CollapseRate", None), ("im", i, "DemolitionRate", None), ("im", i, "plot_max", None)]
    for i in t["edp"]: q += [("edp", i, n, x) for n in MOM for x in [0.6, XS, TWICE, []]] + [("edp", i, "X_at_exceedence", 0.6), ("edp", i, "get_IM", None), ("edp", i, "plot_max", None)] + [("edp", i, "getlambda", x) for x in [0.02, ES, ES[1:2] + ES[:2], []]]
    for i in t["fragfn"]: q += [("fragfn", i, "pExceeded", x) for x in ES] + [("fragfn", i, "size", None)]
    for i in t["compgroup"]:
        q += [("compgroup", i, n, x) for n in ["E_Cost_EDP", "SD_ln_Cost_EDP", "E_Delay_EDP", "SD_ln_Delay_EDP"] for x in ES[1:]]
        q += [("compgroup", i, n, x) for n in ["E_Cost_IM", "SD_ln_Cost_IM", "pDS_IM", "E_Delay_IM", "SD_ln_Delay_IM"] for x in XS[1:]]
        q += [("compgroup", i, n, None) for n in ["size", "get_IM", "E_annual_cost", "Rate", "fragfn"]] + [("compgroup", i, "lambda_cost", 0.05)]
    for i in t["structure"]:
        q += [("structure", i, n, x) for n in ["TotalCost", "CostsByFate", "pdf", "DeaggregatedCost", "Cost0", "Cost1"] for x in XS[1:]]
        q += [("structure", i, n, None) for n in ["get_IM", "getRebuildCost", "getDemolitionCost", "AnnualCost", "E_cost", "ComponentsByEDP", "ComponentsByFragility"]]
    return q


QUICK = {"describe", "plot_max", "ValueAt", "X_at_exceedence", "getlambda", "pExceeded", "get_IM", "size", "ComponentsByEDP", "ComponentsByFragility", "fragfn", "getRebuildCost", "getDemolitionCost",
         "E_Cost_EDP", "SD_ln_Cost_EDP", "E_Delay_EDP", "SD_ln_Delay_EDP"} | set(MOM) | set(IMP)


def touched(op):
    """The identifiers an operation mentions."""
    if op["op"] == "script": return {x for c in op["cmds"] for x in touched(c)}
    return {x for v in op.values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, str)}


def ask(kind, i, n, x):
    """The query, as a user makes it."""
    o = getattr(pyslat, kind).lookup(i)
    if n == "X_at_exceedence": return o.X_at_exceedence(x, 0.3)
    if n == "describe": return str(o)
    if n in ("get_IM", "fragfn"):
        r = getattr(o, n)()
        return r and r.id()
    if n in ("Cost0", "Cost1"): return o.Cost(x, n == "Cost1")
    if n == "E_cost": return o.E_cost(50.0, 0.06)
    if n.startswith("ComponentsBy"): return sorted(sorted(pyslat.compgroup.lookup(g).id() for g in l) for l in getattr(o, n)())
    return getattr(o, n)() if x is None else getattr(o, n)(x)


def descriptions():
    return {"%s %s" % (k, i): str(o) for k in ("detfn", "probfn", "im", "edp", "fragfn", "lossfn", "compgroup") for i, o in getattr(pyslat, k).defs.items()}


def described(m, kind, i, text):
    """Does the description mention everything which was given?"""
    v = m.t[kind][i]
    words = {"edp": lambda: [v["im"]], "detfn": lambda: [v[0]], "compgroup": lambda: [v["edp"], v["frag"], v["cost"], v["delay"]]}.get(kind, lambda: [])()

    def flat(x): return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
    numbers = {"detfn": lambda: flat(v[1]), "fragfn": lambda: flat([d[:2] for d in v]), "lossfn": lambda: flat(v[1] if v[0] == "bilevel" else [d[:2] for d in v[1]]), "compgroup": lambda: [v["n"], v["cadj"], v["dadj"]]}.get(kind, lambda: [])()
    missing = [w for w in [i] + words if w and w not in text]
    have = [float(x) for x in re.findall(r"(?<![\w.])-?[0-9.]+(?:[eE][-+]?[0-9]+)?", text) if x.strip(".-")]
    for x in numbers:
        if float(x) in have: have.remove(float(x))
        else: missing.append(x)
    return not missing


CORE = {"getlambda": "get_lambda", "SD_ln_Cost_EDP": "SD_ln_cost_EDP"}
results = {}  # reference results, by everything they depend on


def should(m, refs, kind, i, n, x):
    """What the query should answer."""
    v = m.t[kind][i]
    if isinstance(x, list) and kind in ("im", "edp"): return [should(m, refs, kind, i, n, y) for y in x]
    if kind == "detfn": return det(v, x)
    if n in MOM:
        ways = [v] if kind == "probfn" else [v[k] for k in ("fn", "fn2") if k in v]
        ways = [moments(w, x) for w in ways]
        most = max(w["Mean"] for w in ways)
        return Either(w[n] for w in ways if close(w["Mean"], most))
    if n == "plot_max": return None
    if kind == "im":
        if n == "getlambda": return det(v["fn"], x)
        c = cdf(v["collapse"], x) if x is not None else None
        d = cdf(v["demolition"], x) - c if v["demolition"] and x is not None else 0.0
        if n in IMP: return {"pCollapse": c, "pDemolition": d, "pRepair": 1 - (c + d)}[n]
    if n == "pExceeded": return [cdf(d, x) for d in v]
    if n == "size": return float(len(v if kind == "fragfn" else m.t["fragfn"][v["frag"]]))
    if n == "fragfn": return v["frag"]
    if n == "get_IM": return v["im"] if kind != "compgroup" else m.group_im(i)
    if n.startswith("ComponentsBy"):
        by = {}
        for g in v["groups"]: by.setdefault(m.t["compgroup"][g]["edp" if n.endswith("EDP") else "frag"], []).append(g)
        return sorted(map(sorted, by.values()))
    key = json.dumps([kind, m.spec(kind, i), n, x, m.tune])
    if key not in results:
        o = refs.get(kind, i)
        if n == "X_at_exceedence": f = lambda: o.X_at_exceedence(x, 0.3)
        elif n in ("Cost0", "Cost1"): f = lambda: o.Cost(x, n == "Cost1")
        elif n == "E_cost": f = lambda: o.E_cost(50.0, 0.06)
        else: f = (lambda: getattr(o, CORE.get(n, n))()) if x is None else (lambda: getattr(o, CORE.get(n, n))(x))
        results[key] = result(f)
    r = results[key]
    if n == "E_Cost_EDP" and v["cost"] and isinstance(r, float):  # where there is a formula, too
        loss, fr = m.t["lossfn"][v["cost"]], m.t["fragfn"][v["frag"]]
        if len(loss[1]) == len(fr):
            p = [cdf(d, x) for d in fr]
            p = [max(0.0, a - b) for a, b in zip(p, p[1:] + [0.0])]
            if loss[0] == "bilevel":
                mean = [c if v["n"] <= a else d if v["n"] >= b else c + (v["n"] - a) / (b - a) * (d - c) for a, b, c, d, _ in loss[1]]
            else: mean = [math.exp(l + s * s / 2) for l, s in map(mu_ln, loss[1])]
            return math.fsum(a * b for a, b in zip(p, mean)) * v["n"] * v["cadj"]
    return r


# ------------------------------------------------------------------------------------------------ runs
class Run:
    def __init__(self, plan, root, pipe):
        self.plan, self.root, self.pipe = plan, root, pipe
        self.m, self.files = Model(), {}
        self.cnt, self.events = {}, []

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def write(self, path, text):
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        with open(path, "w") as f: f.write(text)

    def faulty(self, op, f):
        """Runs f with the operation's faults; which files were hit by one which cannot be ignored?"""
        C.fs_clear()
        for x in op.get("faults", ()):
            C.fs_fault(CALLS.index(x["call"]), x["nth"], WHATS.index(x["what"]), x.get("err", 0), x.get("sticky", 0), x.get("arg", 0))
        start = len(C.fs_log())
        err = None
        C.fs_reads(1); C.fs_active(1)
        try: f()
        except (Exception, KeyboardInterrupt) as e: err = e
        finally:
            C.fs_active(0); C.fs_reads(0); C.fs_clear()
        hit = []
        for l in C.fs_log()[start:].decode().splitlines():
            w = l.split(" ")
            if len(w) > 2 and w[2] in ("error", "signal"): hit.append(os.path.normpath(w[1]))
        return err, hit

    def say(self, e):
        return "no error" if e is None else "%s: %s" % (type(e).__name__, str(e)[:200])

    def one(self, op):
        k = op["op"]
        if k == "file":
            self.files[op["path"]] = op["text"]
            self.write(op["path"], op["text"])
            return
        if k == "script": return self.script(op)
        j = judge(self.m, op, self.files)
        if j == "skip": return
        known = op.get("id") in self.m.t.get(k, {})
        if k == "structure" and op["groups"]:  # in Python: an empty one, to which groups are added
            ops = [dict(op, groups=[])] + [{"op": "add", "id": op["id"], "group": g} for g in op["groups"]]
        else: ops = [op]
        for o in ops:
            j = judge(self.m, o, self.files)
            texts = j == "bad" and descriptions()
            err, hit = self.faulty(o, lambda: run_py(o))
            self.events.append("%s %s" % (k, self.say(err)))
            self.decide(o, j, err, bool(hit))
            if texts and texts != descriptions(): raise Violation("description", "operation %d: %s was refused, but changed the description of %s" % (self.at, json.dumps(o)[:400], [x for x, t in descriptions().items() if texts.get(x) != t]))
        if j == "ok" and known: self.count("redefinitions")
        self.count("imports" if k.startswith("import") else "definitions")

    def decide(self, op, j, err, excused):
        what = json.dumps(op)[:400]
        if err is None:
            if j == "bad": raise Violation("accepted", "operation %d: %s should have been refused, but raised no error" % (self.at, what))
            apply(self.m, op, self.files)
        else:
            if j == "ok" and not excused: raise Violation("refused", "operation %d: %s failed: %s" % (self.at, what, self.say(err)))
            self.count("refused" if j == "bad" else "failed_by_fault")
            self.failed = what

    def script(self, op):
        cmds = op["cmds"]
        m, vars_, verdicts, states, seen = self.m.copy(), {}, [], [], []
        bad = None
        for n, c in enumerate(cmds):
            c = resolve(c, vars_)
            seen.append(c)
            j = judge(m, c, self.files)
            if j == "skip": return
            if c["op"].startswith("import"): verdicts.append(data_path(m, c["file"]))
            else: verdicts.append(None)
            states.append(m.copy())
            if j == "bad": bad = n; break
            if c["op"] == "set": vars_[c["name"]] = c["value"]
            apply(m, c, self.files)
        states.append(m)
        if len(set(verdicts) - {None}) < len([f for f in verdicts if f]): op = dict(op, faults=[])  # (which of the imports would it be?)
        path = "script%d.slat" % self.at
        self.write(path, script_text(op))
        err, hit = self.faulty(op, lambda: SI.main(["", path]))
        self.events.append("script %s" % self.say(err))
        self.count("scripts")
        if op.get("cut") is not None and op["cut"] < len(cmds):
            if err is None: raise Violation("accepted", "operation %d: a script with a syntax error raised no error:\n%s" % (self.at, script_text(op)))
            self.count("scripts_unreadable"); self.failed = "script"
            return
        if err is None:
            if bad is not None: raise Violation("accepted", "operation %d: command %d (%s) of a script should have been refused, but raised no error" % (self.at, bad, text_of(cmds[bad])))
            self.m = m
            self.ran = list(zip(cmds, states))
            return
        stop = bad
        if path in hit: stop = 0
        else:
            for n, f in enumerate(verdicts):
                if f and f in hit: stop = n; break
        if stop is None: stop = self.may_stop(cmds, states)
        if stop is None: raise Violation("refused", "operation %d: script failed: %s\n%s" % (self.at, self.say(err), script_text(op)))
        self.count("failed_by_fault" if stop != bad else "refused")
        if stop: self.count("scripts_stopped_midway")
        self.failed = "command %d of a script" % stop
        self.m = states[stop]
        self.ran = list(zip(cmds, states))[:stop]

    def may_stop(self, cmds, states):
        """The command of a script which may fail although it is right."""

    def verify(self, q, n, ids=None):
        m = self.m
        for k in KINDS:
            d = getattr(pyslat, k).defs
            have, want = sorted(x for x in d if x is not None), sorted(m.t[k])
            if have != want: raise Violation("registry", "after operation %d, the definitions of type %s are %s, not %s%s" % (self.at, k, have, want, self.why()))
            for i in want:
                o = getattr(pyslat, k).lookup(i)
                if k != "structure" and result(o.id) != i: raise Violation("registry", "after operation %d, %s %s is called %s" % (self.at, k, i, o.id()))
        r = random.Random(q)
        qs = queries(m)
        if len(qs) > n:
            # besides the sample: what is quickly asked about what was just touched, or at the end, everything which is quick
            quick = [x for x in qs if x[2] in QUICK and (ids is None or x[1] in ids) and not (x[0] == "edp" and x[2] == "getlambda")]
            qs = r.sample(qs, n) + (quick if ids is None else r.sample(quick, min(len(quick), n)))
        refs = Ref(m)
        for kind, i, name, x in qs:
            a = result(lambda: ask(kind, i, name, x))
            if name == "describe": text, a, b = a, described(m, kind, i, a), True
            else: b = result(lambda: should(m, refs, kind, i, name, x))
            self.count("queries")
            if isinstance(a, str) and a.startswith("raises"): self.count("queries_raising")
            self.events.append("%s" % hashlib.sha1(repr(a).encode()).hexdigest()[:8])
            tol = tolerance(m, kind, i, name)
            if tol is None:
                if isinstance(a, str) != isinstance(b, str): continue
                tol = 1e-4
            if not close(a, b, tol): raise Violation("wrong-result", "after operation %d, %s of %s %s%s is %s, but should be %s%s" % (self.at, name, kind, i, "" if x is None else " at %s" % x, a if name != "describe" else text, b if name != "describe" else "what it was defined as, %s" % json.dumps(m.t[kind][i]), self.why()))

    def why(self):
        return " (%s failed before)" % self.failed if self.failed else ""

    def go(self):
        sys.stdout = sys.stderr = io.StringIO()
        os.chdir(self.root)
        self.failed = None
        self.at = -1
        for i, op in enumerate(self.plan["ops"]):
            self.at = i
            os.write(self.pipe, ("O%d %s\n" % (i, json.dumps(op)[:300])).encode())
            self.one(op)
            self.count("operations")
            os.write(self.pipe, b"Q\n")
            if op["op"] not in ("file", "gc"): self.verify(op.get("q", 0), self.plan.get("sample", 8), touched(op))
        os.write(self.pipe, b"O-1 queries at the end\nQ\n")
        self.verify(self.plan.get("run", 0), 50)


RUN = Run


def child(plan, root, pipe):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    C.fs_root(root.encode())
    run = RUN(plan, root, pipe)
    try:
        run.go()
        res = {"outcome": "ok"}
    except Violation as v:
        res = {"outcome": "violation", "cls": v.args[0], "msg": v.args[1]}
    except BaseException as e:
        import traceback
        C.fs_active(0)
        res = {"outcome": "error", "cls": "", "msg": "".join(traceback.format_exception(e))}
        at = [f for f in traceback.extract_tb(e.__traceback__) if os.path.basename(f.filename) in ("pyslat.py", "SlatInterpreter.py")]
        if at and isinstance(e, Exception): res = {"outcome": "violation", "cls": "raises", "msg": "after operation %d, %s: %s, in %s%s" % (run.at, type(e).__name__, e, at[-1].name, run.why())}
    C.fs_active(0)
    log = C.fs_log().decode("latin-1")
    text = log + "\n".join(run.events)
    res["log"] = text[-60000:]
    res["sig"] = hashlib.sha1(text.encode()).hexdigest()[:16]
    res["hash"] = hashlib.sha1((text + res["outcome"] + res.get("msg", "")).encode()).hexdigest()[:16]
    for key, word in (("error_on_opening", "ropen "), ("error_on_reading", "read "), ("error_on_creating", "open "), ("error_on_writing", "write "), ("error_on_closing", "close ")):
        run.cnt[key] = sum(1 for l in log.splitlines() if l.startswith(word) and " error " in l)
    for key, word in (("short_read", " short"), ("interrupted_call", " EINTR"), ("signal", " signal")):
        run.cnt[key] = sum(1 for l in log.splitlines() if l.endswith(word))
    run.cnt["simulated_calls"] = log.count("\n")
    res["cnt"] = run.cnt
    os.write(pipe, ("R" + json.dumps(res) + "\n").encode())


def died(plan, root, st, lines, busy):
    if busy and len(lines) > 1 and lines[-2] == "Q":  # integrals which take very long are no matter of this property
        return {"outcome": "ok", "hash": "abandoned", "sig": "abandoned", "log": "", "cnt": {"abandoned_slow": 1}}
    ops = [l for l in lines if l.startswith("O")]
    h = hashlib.sha1((json.dumps(plan["ops"]) + str(len(ops))).encode()).hexdigest()[:16]
    at = ops[-1][1:] if ops else "the start"
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL: cls, msg = "hang", "the session did not go on after operation %s" % at
    elif os.WIFSIGNALED(st): cls, msg = "process-died", "the process was ended by signal %d in operation %s" % (os.WTERMSIG(st), at)
    elif os.WEXITSTATUS(st) == 78: cls, msg = "hang", "a failing call was repeated for ever in operation %s" % at
    else: cls, msg = "process-died", "the process ended itself (status %d) in operation %s" % (os.WEXITSTATUS(st), at)
    return {"outcome": "violation", "cls": cls, "msg": msg, "hash": h, "sig": h, "log": "", "cnt": {}}


def simplify(op):
    for key in ("faults", "var", "expr", "exprs"):
        if key in op: yield {k: v for k, v in op.items() if k != key}
    if op["op"] == "script" and "cut" not in op and not op.get("faults"):
        for c in op["cmds"]:
            if len(op["cmds"]) == 1 and c["op"] != "set": yield dict({k: v for k, v in c.items() if k not in ("var", "expr")}, q=op.get("q", 0))


def warm(make_plan=None):
    """Fills the parser's tables, and loads what is loaded on first use, before the runs are forked."""
    old, sys.stdout = sys.stdout, io.StringIO()
    d = tempfile.mkdtemp(prefix="slatfs-")
    try:
        f = os.path.join(d, "x.csv")
        with open(f, "w") as h: h.write("a\nb\n1 2 3\n2 3 4\n")
        np.loadtxt(f, skiprows=2)
        for i in range(80):
            for op in (make_plan or globals()["make_plan"])(99, i, 0)["ops"]:
                if op["op"] == "script":
                    try:
                        p = slatParser(CommonTokenStream(slatLexer(InputStream(script_text(op)))))
                        p._errHandler = BailErrorStrategy()
                        p.script()
                    except Exception: pass
    finally:
        sys.stdout = old
        os.unlink(f); os.rmdir(d)


# ------------------------------------------------------------------------------------------------ plans
IDS = {"im": ["i1", "i2"], "edp": ["e1", "e2", "e3"], "fragfn": ["f1", "f2", "f3"], "lossfn": ["l1", "l2", "l3"], "compgroup": ["c1", "c2", "c3", "c4"], "structure": ["s1", "s2"], "probfn": ["p1", "p2", "p3"]}
DET = {"rate": ["dr1", "dr2"], "mean": ["dm1", "dm2"], "sd": ["ds1", "ds2"]}
DIRS = ["in", "data", "data/deep"]


class Gen:
    def __init__(self, r):
        self.r, self.m, self.files, self.nfile, self.past, self.used, self.two = r, Model(), {}, 0, {}, ([], []), .2

    def f(self, lo, hi):
        return round(self.r.uniform(lo, hi), 4)

    def some(self, kind, p_unknown=0.04):
        ids = list(self.m.t[kind])
        if not ids or self.r.random() < p_unknown: return self.r.choice(["nobody", "zz"])
        return self.r.choice(ids)

    def dettype(self, sort):
        ids = [i for i in DET[sort] if i in self.m.t["detfn"]]
        return self.r.choice(ids) if ids and self.r.random() > .03 else "nobody"

    def detfn(self, sort=None):
        r = self.r
        sort = sort or r.choice(list(DET))
        if sort == "rate":
            ty = r.choice(["hyperbolic", "hyperbolic", "power law", "loglog"])
            if ty == "hyperbolic": p = [self.f(50, 75), self.f(25, 32), self.f(1000, 1400)]
            elif ty == "power law": p = [self.f(0.0005, 0.002), self.f(-2.6, -1.8)]
            else:
                x = sorted(r.sample([0.01, 0.05, 0.1, 0.3, 0.5, 1.0, 2.0, 4.0], r.randint(2, 6)))
                p = [x, [round(0.002 * v ** self.f(-2.2, -1.9), 8) for v in x]]
                p[1] = sorted(p[1], reverse=True)
        elif sort == "mean":
            ty = r.choice(["power law", "power law", "linear", "loglog"])
            if ty == "power law": p = [self.f(0.02, 0.12), self.f(0.8, 1.6)]
            else:
                x = sorted(r.sample([0.1, 0.2, 0.5, 1.0, 1.5, 2.5], r.randint(2, 5)))
                p = [x, sorted(self.f(0.005, 0.2) for _ in x)]
        else:
            ty = r.choice(["power law", "power law", "linear"])
            if ty == "power law": p = [self.f(0.2, 0.5), r.choice([0.0, 0.0, self.f(0.0, 0.3)])]
            else: p = [[0.1, 1.0, 2.5][:r.randint(2, 3)]]; p.append([self.f(0.2, 0.5) for _ in p[0]])
        op = {"op": "detfn", "id": r.choice(DET[sort]), "type": ty, "params": p}
        if r.random() < .1:  # refused
            v = r.random()
            if v < .25: op["type"] = r.choice(["cubic", "powerlaw", "", "LINEAR"])
            elif v < .5 and ty in ("linear", "loglog"): p[0][-1] = p[0][0]
            elif v < .6 and ty in ("linear", "loglog"): p[0].reverse()
            elif v < .7 and ty in ("linear", "loglog"): op["params"] = [p[0][:1], p[1][:1]]
            elif v < .8 and ty in ("linear", "loglog"): p[1].append(1.0)
            elif v < .85 and ty in ("linear", "loglog"): op["params"] = [[], []]
            elif ty == "loglog": p[0][0] = -1.0
            elif ty in ("power law", "hyperbolic"): op["params"] = p[:r.choice([0, 1, len(p) - 1])]
        return op

    def opts(self, bad=.05):
        r = self.r
        if r.random() < bad: return r.choice([("median_x", "sd_x"), ("mean_ln_x", "sd_x")])
        return r.choice([("mean_x", "sd_ln_x"), ("median_x", "sd_ln_x"), ("mean_ln_x", "sd_ln_x"), ("mean_x", "sd_x")])

    def dist(self, lo, hi, bad=.08):
        mu, sd = self.opts(bad)
        m = self.f(lo, hi)
        s = self.f(0.2, 0.6)
        if sd == "sd_x": s = round(m * s, 6)
        if mu == "mean_ln_x": m = round(math.log(m), 6)
        return [m, s, mu, sd]

    def probfn(self):
        mu, sd = self.opts(.08)
        op = {"op": "probfn", "id": self.r.choice(IDS["probfn"]), "mf": self.dettype("mean"), "sf": self.dettype("sd"), "mu": "median_x" if mu == "mean_ln_x" and sd == "sd_ln_x" else mu, "sd": sd}
        if self.r.random() < .04: op["type"] = "normal"
        return op

    def im(self): return {"op": "im", "id": self.r.choice(IDS["im"]), "fn": self.dettype("rate")}

    def edp(self):
        i = self.r.choice(IDS["edp"])
        im = self.m.t["edp"][i]["im"] if i in self.m.t["edp"] and self.r.random() < .95 else self.some("im")
        one = [x for x, v in self.m.t["edp"].items() if "fn2" not in v]
        if one and self.r.random() < (.55 if "fn2" in self.m.t["edp"].get(i, ()) else self.two): return {"op": "edp", "id": i, "im": im, "of": [self.some("edp", .03) if self.r.random() < .05 else self.r.choice(one) for _ in "12"]}
        return {"op": "edp", "id": i, "im": im, "fn": self.some("probfn")}

    def states(self): return self.r.choice([2, 3, 3, 3, 3, 4]) if self.r.random() < .12 else 3

    def fragfn(self):
        mu, sd = self.opts()
        n = self.states()
        v = sorted(self.f(0.004, 0.15) for _ in range(n))
        s = self.f(0.2, 0.6)
        for k in range(1, n): v[k] = max(v[k], round(v[k - 1] * 1.3, 5))
        if self.r.random() < .06: v.reverse()
        elif self.r.random() < .03: v[-1] = v[0]
        p = [[round(math.log(x), 6) if mu == "mean_ln_x" else x, round(x * s, 6) if sd == "sd_x" else s] for x in v]
        return {"op": "fragfn", "id": self.r.choice(IDS["fragfn"]), "pts": p if self.r.random() > .02 else [], "mu": mu, "sd": sd}

    def lossfn(self):
        n = self.states()
        i = self.r.choice(IDS["lossfn"])
        if self.r.random() < .35:
            d = []
            for k in range(n):
                a = self.r.randint(1, 4)
                d.append([a, a + self.r.randint(1, 10), self.f(0.5, 1) * (k + 1), self.f(0.1, 0.5) * (k + 1), self.f(0.2, 0.5)])
            if self.r.random() < .04: d[-1] = d[-1][:4]
            return {"op": "lossfn", "id": i, "kind": "bilevel", "data": d if self.r.random() > .03 else []}
        mu, sd = self.opts()
        d = []
        for k in range(n):
            x = self.f(0.02, 0.2) * (k + 1); s = self.f(0.3, 0.7)
            d.append([round(math.log(x), 6) if mu == "mean_ln_x" else round(x, 6), round(x * s, 6) if sd == "sd_x" else s])
        return {"op": "lossfn", "id": i, "kind": "simple", "data": d if self.r.random() > .02 else [], "mu": mu, "sd": sd}

    def compgroup(self):
        r, i = self.r, self.r.choice(IDS["compgroup"])
        e = self.some("edp")
        if i in self.m.t["compgroup"]:
            same = [x for x, v in self.m.t["edp"].items() if v["im"] == self.m.group_im(i)]
            if r.random() < .95: e = r.choice(same)
        return {"op": "compgroup", "id": i, "edp": e, "frag": self.some("fragfn"), "cost": self.some("lossfn") if r.random() > .04 else None, "delay": self.some("lossfn") if r.random() < .4 else None,
                "n": r.randint(1, 12), "cadj": r.choice([1.0, 1.0, self.f(0.5, 1.5)]), "dadj": r.choice([1.0, self.f(0.5, 1.5)])}

    def structure(self):
        r = self.r
        ids = list(self.m.t["compgroup"])
        im = r.choice([self.m.group_im(i) for i in ids]) if ids else None
        same = [i for i in ids if self.m.group_im(i) == im]
        g = [r.choice(same) for _ in range(r.randint(1, 3))] if same else []
        if r.random() < .06 and ids: g.append(r.choice(ids))
        if r.random() < .05: g.insert(r.randint(0, len(g)), "nobody")
        return {"op": "structure", "id": r.choice(IDS["structure"]), "groups": g if r.random() > .1 else []}

    def member(self):
        r = self.r
        s = self.some("structure")
        k = r.choice(["add", "add", "remove"]) if s not in self.m.t["structure"] or len(self.m.t["structure"][s]["groups"]) != 1 else r.choice(["add", "remove"])
        g = self.some("compgroup")
        if s in self.m.t["structure"]:
            v = self.m.t["structure"][s]
            if k == "remove" and v["groups"]: g = r.choice(v["groups"])
            elif k == "add" and v["groups"] and r.random() < .7: g = r.choice([c for c in self.m.t["compgroup"] if self.m.group_im(c) == v["im"]] or ["nobody"])
        return {"op": k, "id": s, "group": g}

    def setdist(self):
        k = self.r.choice(["collapse", "collapse", "demolition", "demolition", "rebuildcost", "demolitioncost"])
        if self.r.random() < .04: return {"op": k, "id": self.some("im" if k in ("collapse", "demolition") else "structure"), "dist": None}
        if k in ("collapse", "demolition"): return {"op": k, "id": self.some("im"), "dist": self.dist(0.8, 2.5) if k == "collapse" else self.dist(0.4, 1.2)}
        return {"op": k, "id": self.some("structure"), "dist": self.dist(2, 20)}

    def table(self, prob):
        r = self.r
        n = r.choice([2, 3, 5, 8, 8, 40])
        x = sorted({self.f(0.05, 3) for _ in range(n + 1)})
        if prob:
            w = r.randint(3, 8)
            rows = [[v] + [round(0.06 * v * math.exp(r.gauss(0, .4)) + 1e-4, 6) for _ in range(w)] for v in x]
            if r.random() < .4:
                for row in rows:
                    for k in range(3, len(row)):
                        if r.random() < .2: row[k] = 0
        else: rows = [[v, round(0.002 * v ** -2.1, 8)] for v in x]
        lines = ["IM EDP", "g rad"] + [" ".join(("%g" if r.random() < .3 else "%r") % v for v in row) for row in rows]
        if r.random() < .15: lines.insert(r.randint(2, len(lines)), r.choice(["# comment", "", "   "]))
        if r.random() < .2:  # a file which is not a table, or not one of a function
            v, k = r.random(), r.randint(2, len(lines) - 1)
            if v < .25: lines[k] += " oops"
            elif v < .4: lines[k] = "0.5" if lines[k].strip() else "oops"
            elif v < .55: lines[k], lines[-1] = lines[-1], lines[k]
            elif v < .65: lines = lines[:2]
            elif v < .75: lines = []
            elif v < .85: lines.append(lines[-1])
            elif v < .95: lines[k] = "x" + lines[k]
            else: lines = lines[:2] + [l.split(" ")[0] for l in lines[2:] if l.strip() and l[0] != "#"]
        t = "\n".join(lines)
        return t + ("\n" if r.random() < .9 else "")

    def importer(self, out):
        """An import of a file, most often one of its own, which is written first (unless it's missing)."""
        r = self.r
        prob = r.random() < .55
        self.nfile += 1
        name = "data%d" % self.nfile
        v = r.random()
        if v < .3: name = name + r.choice([".txt", ".csv", ".dat"])
        elif v < .5: name = "%s/%s%s" % (r.choice(DIRS), name, r.choice(["", ".txt"]))
        if self.used[prob] and r.random() < .3: name = r.choice(self.used[prob])  # the same again, or another one of that name
        self.used[prob].append(name)
        path = data_path(self.m, name)
        if r.random() < .94 and (path not in self.files or r.random() < .7):
            f = {"op": "file", "path": path, "text": self.table(prob)}
            t = read_table(f["text"])
            if prob and t and len(t[0]) > 2 and any(sum(1 for y in row[1:] if y) < 2 for row in t): return None
            if t is None and len(f["text"].split("\n")) == 3: return None
            out.append(f); self.files[path] = f["text"]
        return {"op": "importprobfn", "id": r.choice(IDS["probfn"]), "file": name} if prob else {"op": "importimfn", "id": r.choice(IDS["im"]), "file": name}

    def vary(self):
        """An earlier definition again, the same or with one thing about it changed."""
        r = self.r
        i = [k for k in self.past if k[1] in self.m.t[k[0]]]
        if not i: return None
        kind, i = r.choice(i)
        op = json.loads(json.dumps(self.past[kind, i]))
        if r.random() < .2: return op
        swap = {"mean_x": "median_x", "median_x": "mean_x"}
        if kind in ("fragfn", "lossfn", "probfn") and op.get("mu") in swap and op["sd"] == "sd_ln_x" and r.random() < .6: op["mu"] = swap[op["mu"]]
        elif kind == "detfn":
            if op["type"] in ("linear", "loglog") and op["params"][0][0] > 0 and r.random() < .5: op["type"] = "linear" if op["type"] == "loglog" else "loglog"
            else:
                x = op["params"][1] if op["type"] in ("linear", "loglog") else op["params"]
                k = r.randrange(len(x))
                x[k] = round(x[k] * self.f(0.95, 1.05), 8)
        elif kind == "probfn": op["mf"] = self.dettype("mean")
        elif kind == "im": op["fn"] = self.dettype("rate")
        elif kind == "edp":
            if "of" in op: op["of"][r.randrange(2)] = self.some("edp")
            else: op["fn"] = self.some("probfn")
        elif kind in ("fragfn", "lossfn"):
            d = r.choice(op["pts" if kind == "fragfn" else "data"])
            k = 1 if kind == "fragfn" else r.choice([0, 1]) if len(d) == 2 else r.choice([2, 3, 4])
            d[k] = round(d[k] * self.f(0.9, 1.1), 6)
        elif kind == "compgroup":
            k = r.choice(["frag", "cost", "delay", "n", "cadj", "dadj"])
            op[k] = r.randint(1, 12) if k == "n" else self.f(0.5, 1.5) if k in ("cadj", "dadj") else self.some("fragfn" if k == "frag" else "lossfn")
        return op

    def any(self, out):
        r = self.r
        if r.random() < .15:
            op = self.vary()
            if op and judge(self.m, op, self.files) != "skip": return op
        for _ in range(20):
            v = r.random()
            if v < .16: op = self.detfn()
            elif v < .26: op = self.probfn()
            elif v < .34: op = self.im()
            elif v < .44: op = self.edp()
            elif v < .53: op = self.fragfn()
            elif v < .62: op = self.lossfn()
            elif v < .71: op = self.compgroup()
            elif v < .76: op = self.structure()
            elif v < .81: op = self.member()
            elif v < .88: op = self.setdist()
            elif v < .97: op = self.importer(out)
            else: op = {"op": "inputdir", "path": r.choice(DIRS)}
            if op and judge(self.m, op, self.files) != "skip": return op
        return {"op": "gc"}

    def note(self, op):
        """Generation goes on from the state expected without faults."""
        if op["op"] == "structure" and judge(self.m, op, self.files) == "bad" and not op.get("script"):
            op2 = dict(op, groups=[])
            apply(self.m, op2, self.files)
            for g in op["groups"]:
                a = {"op": "add", "id": op["id"], "group": g}
                if judge(self.m, a, self.files) == "ok": apply(self.m, a, self.files)
        elif judge(self.m, op, self.files) == "ok":
            apply(self.m, op, self.files)
            if op["op"] in KINDS and op["op"] != "structure": self.past[op["op"], op["id"]] = op

    def faults(self, op, script):
        r = self.r
        if r.random() > .5: return
        nimp = sum(c["op"].startswith("import") for c in op["cmds"]) if script else 1
        fs = []
        for _ in range(r.choice([1, 1, 1, 2])):
            v = r.random()
            nth = r.choice([1, 1, 2, 3]) if not script else (1 if r.random() < .25 else r.randint(1, 1 + 3 * nimp))
            nopen = 1 if not script else r.randint(1, 1 + nimp)
            if v < .35: fs.append({"call": "read", "nth": nth, "what": "error", "err": r.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.EISDIR, errno.ENOMEM]), "sticky": int(r.random() < .4)})
            elif v < .55: fs.append({"call": "ropen", "nth": nopen, "what": "error", "err": r.choice([errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT, errno.ENFILE, errno.ENOMEM]), "sticky": int(r.random() < .4)})
            elif v < .75: fs.append({"call": "read", "nth": r.choice([1, nth]), "what": "short", "arg": r.randint(0, 60), "sticky": int(r.random() < .5)})
            elif v < .85: fs.append({"call": r.choice(["read", "ropen"]), "nth": r.choice([1, nth]), "what": "eintr"})
            else: fs.append({"call": r.choice(["read", "read", "ropen"]), "nth": nth, "what": "sigint"})
        op["faults"] = fs

    def script(self, cmds):
        r = self.r
        op = {"op": "script", "cmds": cmds}
        out = []
        for c in cmds:
            c = dict(c)
            u = r.random()
            vals = None
            for key in ("params", "pts", "data", "dist"):
                if key in c:
                    vals = c[key]
                    while isinstance(vals, list) and vals: vals = vals[0]
            if number(vals):
                if u < .12: c["expr"] = 1
                elif u < .22:
                    c["var"] = "v%d" % len(out)
                    if r.random() < .93:
                        if r.random() < .6: c["var"] = "v"  # (which may have had another value)
                        out.append({"op": "set", "name": c["var"], "value": vals})
            out.append(c)
        op["cmds"] = out
        if r.random() < .07: op["cut"] = r.randrange(len(out))
        self.faults(op, True)
        return op


def make_plan(seed, i, tier):
    r = random.Random("%d:%d" % (seed, i))
    g = Gen(r)
    ops = []

    def emit(new, script):
        """Adds operations, as a script or one by one."""
        if script and all(map(scriptable, new)): ops.append(g.script(new))
        else:
            for o in new:
                if o["op"].startswith("import"): g.faults(o, False)
                ops.append(o)
    # something to begin with
    base = []
    for make, n in ((lambda: g.detfn("rate"), 2), (lambda: g.detfn("mean"), 2), (lambda: g.detfn("sd"), 2), (g.probfn, 2), (g.im, 2), (g.edp, 2), (g.fragfn, 2), (g.lossfn, 2), (g.compgroup, 3), (g.structure, 1)):
        for _ in range(n):
            if r.random() < .9:
                o = make()
                for _ in range(6):
                    if judge(g.m, o, g.files) == "ok": break
                    o = make()
                if judge(g.m, o, g.files) == "skip": continue
                if judge(g.m, o, g.files) == "bad" and r.random() < .8: continue
                base.append(o); g.note(dict(o))
    k = r.random()
    if k < .4: emit(base, True)
    else:
        at = r.randint(0, len(base)) if k < .7 else len(base)
        emit(base[:at], False)
        if base[at:]: emit(base[at:], True)
    # some runs define one object again and again
    kinds = [k for k in ("edp", "edp", "im", "probfn", "fragfn", "lossfn", "compgroup") if g.m.t[k]]
    fond = (lambda k: (k, r.choice(list(g.m.t[k]))))(r.choice(kinds)) if kinds and r.random() < .4 else None
    if fond: g.two = .6

    def again(pre):
        if fond and r.random() < .6:
            for _ in range(12):
                o = getattr(g, fond[0])()
                if o.get("id") == fond[1] and judge(g.m, o, g.files) == "ok": return o
        return g.any(pre)
    for _ in range(r.randint(3, 9) if not tier else r.randint(4, 18)):
        pre = []
        script = r.random() < .35
        new = []
        for _ in range(r.randint(1, 5) if script else 1):
            o = again(pre)
            if script and not scriptable(o): continue
            new.append(o)
            if script and judge(g.m, o, g.files) == "bad":
                if r.random() < .7: break  # what follows is never reached
            else: g.note(o)
        ops += pre
        if new: emit(new, script)
        if r.random() < .05: ops.append({"op": "gc"})
    for o in ops:
        o["q"] = r.randrange(1 << 30)
    return {"property": "C16", "seed": seed, "run": i, "sample": r.choice([4, 8, 16]), "ops": ops}


if __name__ == "__main__":
    import driver
    driver.main(sys.modules["__main__"])
