"""Stands in for the compiled module: every query returns a number that depends only on the object's name and the arguments, and
planned queries raise."""
import zlib

NLH, PLC, LIN, LOGLOG = range(4)
MEAN_X, MEDIAN_X, MEAN_LN_X = range(3)
SD_X, SD_LN_X = range(2)
BINARY_SUBDIVISION, REVERSE_BINARY_SUBDIVISION, LOW_FIRST_REVERSE_BINARY_SUBDIVISION, SCATTERED, DIRECTED = range(5)

calls = 0            # queries so far
plan = {}            # query number -> exception class
raised = []          # what was raised
counting = True


def value(name, what, *args):
    h = zlib.crc32(repr((name, what, args)).encode())
    return (h % 1000003 + 1) / 7919.0


def query(name, what, *args):
    global calls
    if counting:
        calls += 1
        e = plan.get(calls)
        if e is not None:
            raised.append(e.__name__)
            raise e("injected failure of a query")
    what = what.replace("bulk_", "")
    if args and isinstance(args[0], (list, tuple)):
        return tuple(value(name, what, x, *args[1:]) for x in args[0])
    return value(name, what, *args)


class Base:
    seq = 0

    def __init__(self, *key):
        self.key = "%s%r" % (type(self).__name__, key)

    def AreSame(self, other):
        return self is other

    def replace(self, other):
        self.key = other.key

    def __repr__(self):
        return self.key


def _q(*names):
    def deco(cls):
        for n in names:
            setattr(cls, n, (lambda n: lambda self, *a: query(self.key, n, *a))(n))
        return cls
    return deco


@_q("ValueAt")
class DeterministicFn(Base):
    pass


@_q("Mean", "MeanLn", "Median", "SD_ln", "SD", "X_at_exceedence")
class ProbabilisticFn(Base):
    pass


@_q("get_mean_X", "get_median_X", "get_mu_lnX", "get_sigma_X", "get_sigma_lnX")
class LogNormalDist(Base):
    pass


@_q("get_lambda", "pRepair", "pCollapse", "pDemolition", "CollapseRate", "DemolitionRate")
class IM(Base):
    def SetCollapse(self, c):
        pass

    def SetDemolition(self, c):
        pass


@_q("Mean", "bulk_Mean", "MeanLn", "bulk_MeanLn", "Median", "bulk_Median", "SD_ln", "bulk_SD_ln", "SD", "bulk_SD", "get_lambda", "X_at_exceedence")
class EDP(Base):
    pass


class FragilityFn(Base):
    def __init__(self, n, *key):
        super().__init__(n, *key)
        self.n = n

    def pExceeded(self, x):
        query(self.key, "pExceeded", x)
        return tuple(value(self.key, "pExceeded", i, x) for i in range(self.n))


class LossFn(Base):
    pass


class BiLevelLoss(Base):
    pass


@_q("E_Cost_EDP", "SD_ln_cost_EDP", "E_Cost_IM", "SD_ln_Cost_IM", "E_cost", "E_annual_cost", "lambda_cost", "E_Delay_IM", "E_Delay_EDP", "SD_ln_Delay_IM", "SD_ln_Delay_EDP")
class CompGroup(Base):
    def __init__(self, edp, frag, name):
        super().__init__(name)
        self.edp, self.frag = edp, frag

    def get_EDP(self):
        return self.edp

    def pDS_IM(self, x):
        query(self.key, "pDS_IM", x)
        return tuple(value(self.key, "pDS_IM", i, x) for i in range(self.frag.n))

    def Rate(self):
        query(self.key, "Rate")
        return tuple(value(self.key, "Rate", i) for i in range(self.frag.n))


@_q("pdf", "E_cost")
class Structure(Base):
    def __init__(self, key):
        super().__init__(key)
        self.groups = []

    def AddCompGroup(self, g):
        self.groups.append(g)

    def RemoveCompGroup(self, g):
        self.groups.remove(g)

    def setRebuildCost(self, c):
        pass

    def setDemolitionCost(self, c):
        pass

    def TotalCost(self, x):
        query(self.key, "TotalCost", x)
        return LogNormalDist(self.key, "TotalCost", x)

    def AnnualCost(self):
        query(self.key, "AnnualCost")
        return LogNormalDist(self.key, "AnnualCost")

    def CostsByFate(self, x):
        query(self.key, "CostsByFate", x)
        return [LogNormalDist(self.key, "CostsByFate", i, x) for i in range(3)]

    def _by(self, f):
        query(self.key, "groups")
        out = []
        for g in self.groups:
            for l in out:
                if f(l[0]) is f(g):
                    l.append(g)
                    break
            else:
                out.append([g])
        return out

    def ComponentsByEDP(self):
        return self._by(lambda g: g.edp)

    def ComponentsByFragility(self):
        return self._by(lambda g: g.frag)


def factory2(t, p):
    return DeterministicFn(t, tuple(p))


def factory3(t, x, y):
    return DeterministicFn(t, tuple(x), tuple(y))


def MakeLogNormalProbabilisticFn(m, mt, s, st):
    return ProbabilisticFn(m.key, mt, s.key, st)


def MakeLogNormalDist(mu=0, mt=0, sd=0, st=0):
    return LogNormalDist(mu, mt, sd, st)


def AddDistributions(d):
    return LogNormalDist("sum", tuple(x.key for x in d))


def MakeIM(f):
    return IM(f.key)


def MakeEDP(im, f, name):
    return EDP(im.key, f.key, name)


def MakeCompoundEDP(im, f, g, name):
    return EDP(im.key, f.key, g.key, name)


def MakeFragilityFn(p):
    return FragilityFn(len(p), tuple(x.key for x in p))


def MakeSimpleLossFn(p):
    return LossFn("simple", tuple(x.key for x in p))


def MakeBiLevelLoss(*a):
    return BiLevelLoss(*a)


def MakeBiLevelLossFn(p):
    return LossFn("bilevel", tuple(x.key for x in p))


def MakeCompGroup(edp, frag, cost, delay, count, ca, da, name):
    return CompGroup(edp, frag, name)


def MakeStructure():
    Base.seq += 1
    return Structure(Base.seq)


def Initialise():
    pass


def IntegrationSettings(*a):
    pass


def Set_Integration_Tolerance(*a):
    pass


def Set_Integration_Eval_Limit(*a):
    pass


def Set_Integration_Search_Limit(*a):
    pass


def Set_Integration_Method(*a):
    pass


def reset_statistics():
    pass


def format_statistics():
    return "statistics"


def LogToStdErr(*a):
    pass


def SetLogFile(*a):
    pass
