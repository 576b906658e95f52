"""Abstract machine for the incremental estimator: problem, solver and optimiser as state records."""
import hashlib

from sa.project import load
from .core import *

SBASE = ("aslam::backend::AslamTruncatedSvdSolver", "aslam::backend::LinearSystemSolver")
PURE_E = ("getGroupsOrdering", "getGroupDim", "getNumOptimizationProblems", "options", "getOptions", "getSolver", "numDesignVariables",
          "numErrorTerms", "designVariable", "errorTerm", "getOptimizationProblem", "getOptimizationProblemBegin", "getOptimizationProblemEnd",
          "getOptimizationProblems", "isOptimizationProblemInProblem", "isDesignVariableInProblem", "isErrorTermInProblem", "getGroupId", "getDesignVariablesGroup", "isGroupInProblem",
          "isActive", "minimalDimensions", "dimension", "getErrorTerms")
SCALED = {"singularValues": "getSingularValues", "nobsBasis": "getNullSpace", "obsBasis": "getRowSpace", "sigma2Theta": "getCovariance",
          "sigma2ThetaObs": "getRowSpaceCovariance"}
PLAIN = {"rankPsi": "getQRRank", "rankPsiDeficiency": "getQRRankDeficiency", "rankTheta": "getSVDRank",
         "rankThetaDeficiency": "getSVDRankDeficiency", "svdTolerance": "getSVDTolerance", "qrTolerance": "getQRTolerance"}
SRV = {"numIterations": "iterations", "JStart": "JStart", "JFinal": "JFinal"}
# accessor -> (solver quantity) for unscaled accessors without argument
ACC = {"getRankPsi": "getQRRank", "getRankPsiDeficiency": "getQRRankDeficiency", "getRankTheta": "getSVDRank",
       "getRankThetaDeficiency": "getSVDRankDeficiency", "getSVDTolerance": "getSVDTolerance", "getQRTolerance": "getQRTolerance"}
ANY = {"getPeakMemoryUsage": "getPeakMemoryUsage", "getMemoryUsage": "getMemoryUsage", "getNumFlops": "getNumFlops"}
ACCM = {"getSingularValues": "getSingularValues", "getNobsBasis": "getNullSpace", "getObsBasis": "getRowSpace",
        "getSigma2Theta": "getCovariance", "getSigma2ThetaObs": "getRowSpaceCovariance"}
COST = {"getInitialCost": "JStart", "getFinalCost": "JFinal"}
MATRICES = {"getSingularValues": (3, 1), "getNullSpace": (3, 1), "getRowSpace": (3, 2), "getCovariance": (3, 3), "getRowSpaceCovariance": (2, 2)}
EMPTIED = Tok("emptied")


def pure_e(c):
    return c["n"] in PURE_E and not (c.get("inrepo") and (c.get("cls") or "") == IE)


def opaque_e(c):
    return c.get("cls") in (IOP, OP, "aslam::backend::OptimizationProblemBase", DV, ET)


def identity(c):
    return c["n"] == "getSolver"


THISV = mk("deref", sym("this"))
PROB = mk("deref", fld(THISV, "_problem"))


def also(c, l, st):
    if c["n"] in ("optimize",) and (c.get("cls") or "").endswith("Optimizer2"):
        opt = l[0][1] if l[1] == () and l[0][0] == "o" else None
        if opt is None:
            return ()
        from sa.engine import call
        return ((("o", fld(THISV, "_problem")), ()), (("o", call("getSolver", opt)), ()))
    return ()


def num_of(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=4).digest(), "little")


class Opt(Tok):
    """optimiser: number of optimisations run"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c
        super().__init__("optimizer", c)


class Prob(Tok):
    """incremental problem: batches, group order, version of the variables' values, saved version"""
    __slots__ = ("b", "o", "v", "s")

    def __init__(self, b, o, v, s):
        self.b, self.o, self.v, self.s = tuple(b), tuple(o), v, s
        super().__init__("problem", self.b, self.o, v, s)

    def __repr__(self):
        return f"problem(batches {list(self.b)}, order {list(self.o)}, values {self.v})"


class Slv(Tok):
    """solver: split set, last solve (problem, split), scaled/unscaled analysis, system structure"""
    __slots__ = ("m", "opt", "ph", "sys")

    def __init__(self, m, opt, ph, sys):
        self.m, self.opt, self.ph, self.sys = m, opt, ph, sys
        super().__init__("solver", m, opt, ph, sys)

    def __repr__(self):
        return f"solver(split {self.m}, solved {self.opt}, {self.ph}, system {self.sys})"


def esame(a, b):
    e = [isinstance(x, Tok) and x.key() == EMPTIED.key() or isinstance(x, Seq) and not x.e or isinstance(x, M) and not x.e for x in (a, b)]
    return all(e) or not any(e) and same(a, b)


class EI(CI):
    @property
    def W(self):
        return self.given["W"]

    def op_deref(self, t, p):
        if t in self.given:
            return self.leaf(t)
        try:
            v = self(p)
        except Open:
            return self.leaf(t)
        if isinstance(v, Ptr) and v.n in ("solver", "optimizer", "problem"):
            return {"solver": self.W.solver0, "optimizer": Opt(0), "problem": self.W.prob0}[v.n]
        return super().op_deref(t, p)

    def op_fld(self, t, b, n):
        if b.op == "deref" and b.a[0].op == "refof":
            r = self.W.opts.get((b.a[0].a[0], n))
            if r is not None:
                return r
        return super().op_fld(t, b, n)

    def op_refof(self, t, n, o, *a):
        return Tok("ref", n, *[self.any(x) for x in a])

    def op_sized(self, t, n, old, *sz):
        k = [self(x) for x in sz]
        if all(isn(x) for x in k) and 0 in k:
            return EMPTIED
        return super().op_sized(t, n, old, *sz)

    def op_call(self, t, n, *a):
        v = [self.any(x) for x in a]
        if n == "getSolver":
            return Ptr("solver")
        if v and isinstance(v[0], Slv):
            return self.W.query(n, v[0])
        if v and isinstance(v[0], Prob):
            return self.W.ask(v[0], n, v[1:])
        return super().op_call(t, n, *a)

    def op_ctor(self, t, cls, *a):
        if cls.startswith("Eigen::Matrix") and not a:
            return EMPTIED
        return super().op_ctor(t, cls, *a)

    def op_ret(self, t, n, *a):
        if n == "optimize" and a:
            o = self(a[0])
            if isinstance(o, Opt):
                return self.W.srv(o.c)
        if n == "now":
            v = [self.any(x) for x in a]
            return self.W.t0 + 3 * int(v[-1]) ** 2 + 2 * int(v[-1])
        v = [self.any(x) for x in a]
        if v and isinstance(v[0], Prob):
            return self.W.ask(v[0], n, v[1:])
        return super().op_ret(t, n, *a)

    def op_mut(self, t, n, old, *a):
        v = self(old)
        if isinstance(v, Prob):
            return self.W.change(v, n, [self.any(x) for x in a])
        if isinstance(v, Slv):
            return self.W.solver(v, n, [self.any(x) for x in a])
        if isinstance(v, Obj) and n in ("setBlockIndex", "setColumnBase", "setRowBase"):
            return v        # does not change activity or dimensions
        if isinstance(v, Opt):
            return Opt(v.c + 1) if n == "optimize" else v
        return super().op_mut(t, n, old, *a)


class EWorld(World):
    """an estimator over an incremental problem, a solver and an optimiser"""

    def __init__(self, seed):
        super().__init__(seed)
        r = self.r
        self.seed = seed
        self.marg = "g%d" % r(3)
        nb = [(d, self.grp[d]) for d in r.some(DVS, 1 + r(4))]
        if r(3) and not any(g == self.marg for _, g in nb) and not any(g == self.marg for b in self.batches for _, g in b.dvs):
            nb += [(d, self.grp[d]) for d in DVS if self.grp[d] == self.marg][:1]
        self.new = Batch("new", nb, ["f%d" % k for k in range(r(3))])
        self.w["new"] = self.new.attrs()
        for k in range(self.ne):
            self.w["e%d" % k] = {"dimension": 1 + r(3)}
        for k in range(3):
            self.w["f%d" % k] = {"dimension": 1 + r(3)}
        self.bynm = {b.name: b for b in self.batches + [self.new]}
        self.prob0 = Prob([b.name for b in self.batches], self.order, "v0", "s0")
        self.solver0 = Slv("m0", "before", "unscaled", "sys0")
        self.opts = {("getOptions", "columnScaling"): bool(r(2)), ("options", "maxIterations"): 1 + r(3), ("options", "numThreadsJacobian"): 1 + r(4)}
        self.mem = {"informationGain": r(5), "svLog2Sum": r(5) - 2, "rankTheta": r(4) - 1}
        self.o = {"infoGainDelta": Fraction_(r(5) - 1, 2), "checkValidity": bool(r(2)), "verbose": bool(r(2))}
        self.force = r(3) == 0
        self.t0 = 100 + r(50)

    def srv(self, k):
        g = lambda n, m: num_of(self.seed, "srv", k, n) % m
        return Rec((("iterations", 1 + g("i", 3)), ("JStart", 1 + g("s", 3)), ("JFinal", 1 + g("f", 3)), ("failedIterations", g("x", 3)),
                    ("dXFinal", g("dx", 9)), ("dJFinal", g("dj", 9)), ("linearSolverFailure", bool(g("l", 2)))))

    # ---- solver
    def query(self, n, s):
        k = (n, str(s.opt), s.ph)
        if n in MATRICES:
            a, b = MATRICES[n]
            return M(a, b, [Tok("q", *k, i) for i in range(a * b)])
        if n == "getSingularValuesLog2Sum":
            return num_of(self.seed, *k) % 6 - 2
        if n == "getSVDRank":
            return num_of(self.seed, *k) % 4
        if n in ("getPeakMemoryUsage", "getMemoryUsage", "getNumFlops"):
            return num_of(self.seed, n, str(s.opt))
        if n == "getJacobianTranspose":
            return Tok("jacobian", str(s.opt) if s.sys is None else str(s.sys))
        if n.startswith("get"):
            return num_of(self.seed, *k)
        raise Open(n)

    def solver(self, s, n, a):
        if n == "setMargStartIndex":
            return Slv(int(a[0]), s.opt, s.ph, s.sys)
        if n == "optimize":
            p = a[0]
            return Slv(s.m, (tuple(sorted(p.b)), p.o, s.m, p.v), "scaled" if self.opts["getOptions", "columnScaling"] else "raw", None)
        if n == "analyzeMarginal":
            return Slv(s.m, s.opt, "unscaled", s.sys)
        if n == "initMatrixStructure":
            return Slv(s.m, s.opt, "stale", ("structure", tuple(x.n for x in seq(a[0])), tuple(x.n for x in seq(a[1]))))
        if n == "buildSystem":
            return Slv(s.m, s.opt, s.ph, ("built",) + (s.sys[1:] if isinstance(s.sys, tuple) else (s.sys,)))
        if n == "solveSystem":
            return Slv(s.m, s.opt, "raw", s.sys)
        raise Open("solver " + n)

    # ---- problem
    def change(self, p, n, a):
        if n == "add":
            if a[0].n in p.b:
                raise Refused("batch added twice")
            o = list(p.o)
            for _, g in self.bynm[a[0].n].dvs:
                if g not in o:
                    o.append(g)
            return Prob(p.b + (a[0].n,), o, p.v, p.s)
        if n == "remove":
            k = a[0]
            if isinstance(k, Ptr):
                if k.n not in p.b:
                    raise Refused("removes a batch that is not there")
                k = p.b.index(k.n)
            if not isn(k) or not 0 <= k < len(p.b):
                raise Bottom("removes past the end")
            b = [x for i, x in enumerate(p.b) if i != k]
            gs = {g for x in b for _, g in self.bynm[x].dvs}
            q = Prob(b, [g for g in p.o if g in gs], p.v, p.s)
            if isinstance(p.s, tuple):
                left = set(self.dvs(p)) - set(self.dvs(q))
                q = Prob(q.b, q.o, p.v, (p.s[0], p.s[1] - left) + (("lost",) if p.s[1] & left or len(p.s) > 2 else ()))
            return q
        if n == "setGroupsOrdering":
            o = [x.n for x in seq(a[0])]
            if sorted(o) != sorted(p.o):
                raise Refused("not a reordering")
            return Prob(p.b, o, p.v, p.s)
        if n == "saveDesignVariables":
            return Prob(p.b, p.o, p.v, (p.v, frozenset(self.dvs(p))))
        if n == "restoreDesignVariables":
            if not isinstance(p.s, tuple):
                return Prob(p.b, p.o, "restored " + str(p.s), p.s)
            v, d = p.s[:2]
            lost = len(p.s) > 2 and p.v != v
            return Prob(p.b, p.o, v if d >= set(self.dvs(p)) and not lost else "partly " + str(v), p.s)
        if n == "optimize":
            return Prob(p.b, p.o, "opt(" + ",".join(p.b) + "|" + str(p.v) + ")", p.s)
        if n == "clear":
            return Prob((), (), p.v, p.s)
        raise Open("problem " + n)

    def dvs(self, p):
        out = []
        for b in p.b:
            for d, _ in self.bynm[b].dvs:
                if d not in out:
                    out.append(d)
        return sorted(out, key=lambda d: (p.o.index(self.grp[d]) if self.grp[d] in p.o else 99, d))

    def gdim(self, p, g):
        return sum(self.w[d]["minimalDimensions"] for d in self.dvs(p) if self.grp[d] == g and self.w[d]["isActive"])

    def ask(self, p, n, a):
        ets = [e for b in p.b for e in self.bynm[b].ets]
        if n == "getGroupsOrdering":
            return Seq([Name(g) for g in p.o])
        if n == "getGroupDim":
            if a[0].n not in p.o:
                raise Refused("group dimension of an absent group")
            return self.gdim(p, a[0].n)
        if n in ("getNumOptimizationProblems", "getOptimizationProblemEnd"):
            return len(p.b)
        if n == "getOptimizationProblemBegin":
            return 0
        if n == "getOptimizationProblem":
            return p.b.index(a[0].n) if a[0].n in p.b else len(p.b)
        if n == "isOptimizationProblemInProblem":
            return a[0].n in p.b
        if n == "numDesignVariables":
            return len(self.dvs(p))
        if n == "numErrorTerms":
            return len(ets)
        if n == "designVariable":
            d = self.dvs(p)
            if not 0 <= a[0] < len(d):
                raise Refused("design variable index")
            return Ptr(d[int(a[0])])
        if n == "errorTerm":
            if not 0 <= a[0] < len(ets):
                raise Refused("error term index")
            return Ptr(ets[int(a[0])])
        raise Open("problem " + n)

    def egiven(self):
        g = {"world": self.w, "W": self, fld(THISV, "_problem"): Ptr("problem"), fld(THISV, "_optimizer"): Ptr("optimizer"),
             fld(THISV, "_margGroupId"): Name(self.marg), mk("deref", sym("arg0")): Ptr("new"), sym("arg1"): self.force}
        for k, v in self.mem.items():
            g[fld(THISV, "_" + k)] = v
        for k, v in self.o.items():
            g[fld(fld(THISV, "_options"), k)] = v
        return g

    # ---- the reference
    def after_add(self):
        p = self.change(self.prob0, "add", [Ptr("new")])
        return p

    def solve(self, p, s, k):
        """(problem, solver, summary) after a correct solve of p"""
        if self.marg not in p.o:
            return None
        split = sum(self.gdim(p, g) for g in p.o) - self.gdim(p, self.marg)
        return split, self.srv(k)


def Fraction_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def seq(x):
    if not isinstance(x, Seq):
        raise Open("list")
    return x.e


class Est:
    def __init__(self, R):
        self.m = load("core")
        self.R = R
        self.L = Lib(self.m, R, opaque=opaque_e, pure=pure_e, identity=identity, also=also)
        L = self.L
        self.add = L.method(IE, "addBatch", 2)
        self.reopt = L.method(IE, "reoptimize", 0)
        self.rm = [f for f in L.methods(IE, "removeBatch", 1)]
        if not self.rm:
            R.lost("IncrementalEstimator::removeBatch")

    def ok(self):
        return self.add is not None and self.reopt is not None and self.rm

    def entries(self):
        """(key, function, kind) of every operation that solves"""
        out = [("addBatch", self.add, "add"), ("reoptimize", self.reopt, "reopt")]
        for f in self.rm:
            k = "index" if f["params"][0]["tk"] in ("i", "u") else "pointer"
            out.append(("removeBatch(" + k + ")", f, k))
        return out

    def given(self, kind):
        def g(i):
            w = EWorld(i * 17 + 5)
            r = w.egiven()
            if kind == "index":
                r[sym("arg0")] = w.r(len(w.batches)) if w.batches else 0
            if kind == "pointer":
                w.target = w.r.r.choice(w.batches).name if w.batches and w.r(4) else "new"
                r[mk("deref", sym("arg0"))] = Ptr(w.target)
            return r
        return g

    def prob(self, S, o):
        return S.I(self.L.E.read(o.st, (("o", fld(THISV, "_problem")), ())))

    def slv(self, S, o):
        from sa.engine import call
        return S.I(self.L.E.read(o.st, (("o", call("getSolver", fld(THISV, "_optimizer"))), ())))

    def accessor(self, S, name, st, scaled=None):
        f = self.L.methods(IE, name, 0 if scaled is None else 1)
        f = [x for x in f if x.get("const")] or f
        if not f:
            raise Open("accessor " + name)
        a = None if scaled is None else [TRUE if scaled else FALSE]
        o = outcome(self.L.run(f[0], st, a), S.I)
        if o.kind == "throw":
            raise Bottom("accessor throws")
        if o.loc is not None:
            return S.I(self.L.E.read(o.st, o.loc))
        return S.I(o.val)
