"""C05, the single optimisation problem."""
from .core import *

PM = ("_designVariablesLookup", "_errorTermsLookup", "_designVariables", "_errorTerms", "_groupsOrdering", "_designVariablesBackup")


def opaque1(c):
    return c.get("cls") in ("aslam::backend::OptimizationProblemBase", DV, ET)


class PWorld:
    def __init__(self, seed):
        r = self.r = Rnd(seed)
        self.w = {d: {"isActive": bool(r(4)), "minimalDimensions": 1 + r(3)} for d in DVS}
        self.dvs = [(d, "g%d" % r(3)) for d in r.some(DVS)]
        self.ets = []
        for k in range(r(4)):
            self.ets.append("e%d" % k)
        for e in ["e%d" % k for k in range(6)]:
            self.term(e, [d for d, _ in r.some(self.dvs, r(3))])
        self.build()
        if r(2):
            r.r.shuffle(self.order)
        self.backup = Mp([(Ptr(d), Tok("old", d)) for d, _ in self.dvs if r(2)])

    def term(self, e, ds):
        ds = list(ds)

        def dv(i):
            if not isn(i) or not 0 <= i < len(ds):
                raise Outside("design variable index of an error term")
            return Ptr(ds[int(i)])
        self.w[e] = {"numDesignVariables": len(ds), "designVariable": dv, "designVariables": Seq([Ptr(d) for d in ds]), "ds": ds}

    def build(self):
        self.lookup, self.groups, self.order, _ = self.views(self.dvs, [])

    @staticmethod
    def views(dvs, order):
        gs, o = {}, list(order)
        for d, g in dvs:
            gs.setdefault(g, []).append(d)
            if g not in o:
                o.append(g)
        return (Mp([(Ptr(d), Name(g)) for d, g in dvs], Name("g?")), Mp([(Name(g), Seq([Ptr(d) for d in ds])) for g, ds in gs.items()], Seq(())),
                o, None)

    def state(self, dvs, ets, order=None):
        a, b, o, _ = self.views(dvs, self.order if order is None else order)
        return {"_designVariablesLookup": a, "_designVariables": b, "_groupsOrdering": Seq([Name(g) for g in o]),
                "_errorTerms": Seq([Ptr(e) for e in ets]), "_errorTermsLookup": Mp([(Ptr(e), None) for e in ets]),
                "_designVariablesBackup": self.backup}

    def given(self):
        t = mk("deref", sym("this"))
        return {"world": self.w, **{fld(t, m): v for m, v in self.state(self.dvs, self.ets).items()}}


def problem(L0, R, only=None):
    L = Lib(L0.m, R, opaque=opaque1, pure=pure)
    both = ("ret", "throw")
    T = lambda *a, **k: table(L, R, OP, *a, world=PWorld, **k) if only is None or a[0] in only else None
    anydv = lambda w: [Ptr(w.r.some(DVS, 1)[0])]
    anyet = lambda w: [Ptr("e%d" % w.r(6))]
    anyg = lambda w: [Name("g%d" % w.r(4))]
    idx = lambda n: lambda w: [w.r(n(w) + 2)]
    flat = lambda w: [Ptr(d) for g in w.order for d, h in w.dvs if h == g]
    names = lambda w: dict(w.dvs)
    T("isDesignVariableInProblem", 1, anydv, lambda w, d: int(d.n in names(w)))
    T("isErrorTermInProblem", 1, anyet, lambda w, e: int(e.n in w.ets))
    T("isGroupInProblem", 1, anyg, lambda w, g: int(g.n in w.order))
    T("getNumGroups", 0, lambda w: [], lambda w: len(w.order))
    T("getGroupsOrdering", 0, lambda w: [], lambda w: Seq([Name(g) for g in w.order]))
    T("getErrorTerms", 0, lambda w: [], lambda w: Seq([Ptr(e) for e in w.ets]))
    T("getDesignVariablesGroups", 0, lambda w: [], lambda w: w.groups)
    T("getDesignVariablesGroup", 1, anyg, lambda w, g: w.groups.get(g) if g in w.groups else "throw", need=both)
    T("getGroupId", 1, anydv, lambda w, d: Name(names(w)[d.n]) if d.n in names(w) else "throw", need=both)
    T("getGroupDim", 1, anyg, lambda w, g: sum(w.w[d.n]["minimalDimensions"] for d in w.groups.get(g).e if w.w[d.n]["isActive"])
      if g in w.groups else "throw", need=both)
    T("numDesignVariablesImplementation", 0, lambda w: [], lambda w: len(w.dvs))
    T("numErrorTermsImplementation", 0, lambda w: [], lambda w: len(w.ets))
    T("designVariableImplementation", 1, idx(lambda w: len(w.dvs)), lambda w, i: flat(w)[i] if i < len(w.dvs) else "throw", need=both)
    T("errorTermImplementation", 1, idx(lambda w: len(w.ets)), lambda w, i: Ptr(w.ets[i]) if i < len(w.ets) else "throw", need=both)

    def newdv(w):
        return [NULLV if w.r(6) == 0 else anydv(w)[0], anyg(w)[0]]

    def adddv(w, p, g):
        if p.key() == NULLV.key() or p.n in names(w):
            return "throw"
        return w.state(w.dvs + [(p.n, g.n)], w.ets)
    T("addDesignVariable", 2, newdv, adddv, need=both)

    def newet(w):
        if w.r(6) == 0:
            return [NULLV]
        e = "e%d" % w.r(6)
        if e not in w.ets and w.r(2):
            w.term(e, w.r.some(DVS, w.r(3)))
        return [Ptr(e)]

    def addet(w, p):
        if p.key() == NULLV.key() or p.n in w.ets or any(d not in names(w) for d in w.w[p.n]["ds"]):
            return "throw"
        return w.state(w.dvs, w.ets + [p.n])
    T("addErrorTerm", 1, newet, addet, need=both)
    T("clear", 0, lambda w: [], lambda w: {x: Empty() for x in PM})

    def ordering(w):
        r = w.r
        gs = [Name(g) for g in w.order]
        r.r.shuffle(gs)
        k = r(4)
        if k == 0 and gs:
            gs[0] = Name("g%d" % r(4))
        if k == 1:
            gs = gs[:-1] if r(2) else gs + [Name("g3")]
        return [Seq(gs)]

    def reorder(w, s):
        if sorted(w.order) != sorted(x.n for x in s.e):
            return "throw"
        return {**w.state(w.dvs, w.ets), "_groupsOrdering": s}
    T("setGroupsOrdering", 1, ordering, reorder, need=both)

    from .c05 import perm, valid
    T("permuteErrorTerms", 1, lambda w: [perm(w.r, len(w.ets))],
      lambda w, p: {**w.state(w.dvs, w.ets), "_errorTerms": Seq([Ptr(w.ets[i]) for i in p.e])} if valid(p, len(w.ets)) else "throw", need=both)

    def pgroup(w):
        g = anyg(w)[0]
        return [perm(w.r, len(w.groups.get(g).e) if g in w.groups else 1), g]

    def permuted(w, p, g):
        if g not in w.groups or not valid(p, len(w.groups.get(g).e)):
            return "throw"
        old = w.groups.get(g).e

        def f(S, o):
            return [("group", S.I(L.rd(o.st, ("_designVariables",))), w.groups.put(g, Seq([old[i] for i in p.e])))] + [
                (x.lstrip("_"), S.I(L.rd(o.st, (x,))), v) for x, v in w.state(w.dvs, w.ets).items() if x != "_designVariables"]
        return f
    T("permuteDesignVariables", 2, pgroup, permuted, need=both)

    def errs(w, d, out):
        def f(S, o):
            got = S.I(L.rd(o.st, (), (("o", sym("arg1")), ())))
            return [("error terms of a design variable", got, Mp([(Ptr(e), None) for e in w.ets if d.n in w.w[e]["ds"]]))]
        return f
    T("getErrorsImplementation", 2, lambda w: [anydv(w)[0], Mp()], errs)
