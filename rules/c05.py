"""C05 all views of an optimisation problem agree."""
from sa.project import load
from .core import *


def anydv(w):
    return [Ptr(DVS[w.r(len(DVS))])]


def anyet(w):
    return [Ptr("e%d" % w.r(w.ne + 1))]


def anygrp(w):
    return [Name("g%d" % w.r(4))]


def idx(n):
    return lambda w: [w.r(n(w) + 2)]


def flat(w):
    out = []
    for g in w.order:
        out += list(w.groups.get(Name(g)).e)
    return out


def ets(w):
    return [Ptr(e) for b in w.batches for e in b.ets]


def conforms(w, b):
    d0 = {d: g for x in w.batches for d, g in x.dvs}
    return all(d0.get(d, g) == g for d, g in b.dvs) and not (set(b.ets) & {e for x in w.batches for e in x.ets})


def newbatch(w):
    r = w.r
    dvs = [(d, w.grp[d] if r(5) else "g%d" % r(4)) for d in r.some(DVS, 1 + r(3))]
    es = ["e%d" % (w.ne + 5 + k) for k in range(r(3))]
    if r(4) == 0 and w.ne:
        es.append("e%d" % r(w.ne))
    b = Batch("new", dvs, es)
    w.w["new"] = b.attrs()
    w.new = b
    return [NULLV if r(7) == 0 else Ptr("new")]


def added(w, p):
    if p.key() == NULLV.key() or not conforms(w, w.new):
        return "throw"
    return expect(w, w.batches + [w.new], w.backup)


def perm(r, n):
    p = list(range(n))
    r.r.shuffle(p)
    k = r(5)
    if k == 0:
        p = p[:-1] if r(2) and p else p + [n]
    elif k == 1 and p:
        p[r(len(p))] = r(n + 1)
    return Seq(p)


def valid(p, n):
    return sorted(p.e) == list(range(n))


def ordering(w):
    r = w.r
    gs = [Name(g) for g in w.order]
    r.r.shuffle(gs)
    k = r(4)
    if k == 0 and gs:
        gs[0] = Name("g%d" % r(4))
    if k == 1:
        gs = gs[:-1] if r(2) else gs + [Name("g3")]
    return [Seq(gs)]


def reorder(w, s):
    now = [x.key() for x in Seq([Name(g) for g in w.order]).e]
    new = [x.key() for x in s.e]
    if sorted(map(str, now)) != sorted(map(str, new)):
        return "throw"
    return {**{m: v for m, v in expect(w, w.batches, w.backup).items()}, "_groupsOrdering": s}


def check(R):
    R.rule("each operation's value-numbered summary (loops included) is compared with the abstraction of the problem as a list of batches (design variables with "
           "groups and reference counts, error terms): after adding, clearing, reordering every member equals what the abstraction requires, "
           "and every observer answers from it")
    m = load("core")
    L = Lib(m, R, opaque=opaque, pure=pure)
    incremental(L, R)
    from . import c05p
    c05p.problem(L, R)


def incremental(L, R, only=None):
    W = World
    T = lambda *a, **k: table(L, R, IOP, *a, world=W, **k) if only is None or a[0] in only else None
    both = ("ret", "throw")
    T("isDesignVariableInProblem", 1, anydv, lambda w, d: int(d in w.counts))
    T("isErrorTermInProblem", 1, anyet, lambda w, e: int(e.n in {x for b in w.batches for x in b.ets}))
    T("isGroupInProblem", 1, anygrp, lambda w, g: int(g in w.groups))
    T("getNumGroups", 0, lambda w: [], lambda w: len(w.order))
    T("getNumOptimizationProblems", 0, lambda w: [], lambda w: len(w.batches))
    T("getGroupsOrdering", 0, lambda w: [], lambda w: Seq([Name(g) for g in w.order]))
    T("getDesignVariablesGroups", 0, lambda w: [], lambda w: w.groups)
    T("getOptimizationProblems", 0, lambda w: [], lambda w: Seq([Ptr(b.name) for b in w.batches]))
    T("getDesignVariablesGroup", 1, anygrp, lambda w, g: w.groups.get(g) if g in w.groups else "throw", need=both)
    T("getGroupId", 1, anydv, lambda w, d: w.counts.get(d).f["second"] if d in w.counts else "throw", need=both)
    T("getGroupDim", 1, anygrp, lambda w, g: sum(w.w[d.n]["minimalDimensions"] for d in w.groups.get(g).e if w.w[d.n]["isActive"])
      if g in w.groups else "throw", need=both)
    T("numDesignVariablesImplementation", 0, lambda w: [], lambda w: len(flat(w)))
    T("numErrorTermsImplementation", 0, lambda w: [], lambda w: len(ets(w)))
    T("designVariableImplementation", 1, idx(lambda w: len(flat(w))), lambda w, i: flat(w)[i] if i < len(flat(w)) else "throw", need=both)
    T("errorTermImplementation", 1, idx(lambda w: len(ets(w))), lambda w, i: ets(w)[i] if i < len(ets(w)) else "throw", need=both)
    T("getOptimizationProblem", 1, idx(lambda w: len(w.batches)), lambda w, i: Ptr(w.batches[i].name) if i < len(w.batches) else "throw",
      pred=lambda f: "iterator" not in f["params"][0]["t"] and "shared_ptr" not in f["params"][0]["t"], need=both)
    it = mk("iter", mk("addr", ("o", sym("this")), ("_optimizationProblems",)), sym("k"))
    from .c06 import pick_k
    T("getOptimizationProblem", 1, lambda w: [], lambda w: Ptr(w.batches[w.k].name) if w.k < len(w.batches) else "throw",
      pred=lambda f: "iterator" in f["params"][0]["t"], args=lambda f: [it], given=lambda w, v: {sym("k"): pick_k(w)}, need=both)
    T("getErrorTerms", 1, idx(lambda w: len(w.batches)), lambda w, i: Tok("terms", w.batches[i].name) if i < len(w.batches) else "throw", need=both)
    T("permuteOptimizationProblems", 1, lambda w: [perm(w.r, len(w.batches))],
      lambda w, p: expect(w, [w.batches[i] for i in p.e], w.backup) if valid(p, len(w.batches)) else "throw", need=both)

    def pgroup(w):
        g = anygrp(w)[0]
        return [perm(w.r, len(w.groups.get(g).e) if g in w.groups else 1), g]

    def permuted(w, p, g):
        if g not in w.groups or not valid(p, len(w.groups.get(g).e)):
            return "throw"
        old = w.groups.get(g).e

        def f(S, o):
            now = {m: S.I(L.rd(o.st, (m,))) for m in MEMBERS}
            return [("group", now["_designVariables"], w.groups.put(g, Seq([old[i] for i in p.e])))] + [
                (x.lstrip("_"), now[x], v) for x, v in expect(w, w.batches, w.backup).items() if x != "_designVariables"]
        return f
    T("permuteDesignVariables", 2, pgroup, permuted, need=both)
    T("add", 1, newbatch, added, need=both)
    T("clear", 0, lambda w: [], lambda w: {x: Empty() for x in MEMBERS})
    T("setGroupsOrdering", 1, ordering, reorder, need=both)
