"""C02 the accept decision follows the documented rule."""
from .est import *
from .c01 import accepted


def decision(w, mem, opts, force, k, log, rank):
    srv = w.srv(k).f
    valid = not opts["checkValidity"] or not (srv["iterations"] == w.opts["options", "maxIterations"] or srv["JFinal"] >= srv["JStart"])
    gain = Fraction_(log - mem["svLog2Sum"], 2)
    return bool(force or valid and (gain > opts["infoGainDelta"] or rank > mem["rankTheta"])), gain


def check(R):
    R.rule("on every path of addBatch the reported verdict, and whether the batch is still in the problem, equal: forced, or valid and (gain above the threshold "
           "or rank above the one last kept), evaluated on models that reach both sides and the boundary of every comparison")
    R.rule("the reported gain is half the increase of the log sum of the unscaled singular values since the last kept batch, also across a sequence of "
           "operations composed from the summaries")
    E = Est(R)
    if not E.ok():
        return
    f = E.add

    def final(w):
        p = w.after_add()
        m = sum(w.gdim(p, g) for g in p.o) - w.gdim(p, w.marg)
        return p, m

    def spec(S, o):
        w = S.I.W
        if w.marg not in w.after_add().o:
            return None
        if o.kind == "throw":
            return [("x", 0, 0)]
        s = E.slv(S, o)
        if s.opt == "before":
            return [("optimised", False, True)]
        q = Slv(s.m, s.opt, "unscaled", None)
        d, gain = decision(w, w.mem, w.o, w.force, 0, w.query("getSingularValuesLog2Sum", q), w.query("getSVDRank", q))
        r = S.I(o.val)
        p = E.prob(S, o)
        return [("verdict", bool(accepted(S, o)), d), ("batch kept", "new" in p.b, d), ("gain", r.f["informationGain"], gain)]
    contract(E.L, R, "IncrementalEstimator::addBatch", f, spec, given=E.given("add"), cls=EI, n=1500, same=lambda a, b: a == b)
    # the state the next decision starts from
    L = E.L
    for key, g, kind in (("addBatch", E.add, "add"), ("reoptimize", E.reopt, "reopt")):
        def spec2(S, o, kind=kind):
            w = S.I.W
            if o.kind == "throw":
                return None
            if kind == "add" and not accepted(S, o):
                return [("log sum kept", S.I(L.rd(o.st, ("_svLog2Sum",))), w.mem["svLog2Sum"]), ("rank kept", S.I(L.rd(o.st, ("_rankTheta",))), w.mem["rankTheta"])]
            s = E.slv(S, o)
            if s.opt == "before":
                return [("optimised", False, True)]
            q = Slv(s.m, s.opt, "unscaled", None)
            return [("log sum kept", S.I(L.rd(o.st, ("_svLog2Sum",))), w.query("getSingularValuesLog2Sum", q)),
                    ("rank kept", S.I(L.rd(o.st, ("_rankTheta",))), w.query("getSVDRank", q))]
        contract(L, R, "state compared with after " + key, g, spec2, given=E.given(kind), cls=EI, n=200, same=lambda a, b: a == b)
    for g in L.m.methods(IE):
        if g["kind"] == "ctor" and g.get("body") is not None:
            contract(L, R, "state compared with after construction/" + sig(g), g,
                     lambda S, o: [("log sum", S.I(L.rd(o.st, ("_svLog2Sum",))), 0), ("rank below any rank", bool(S.I(L.rd(o.st, ("_rankTheta",))) < 0), True)]
                     if o.kind == "ret" else None, given=lambda i: EWorld(i).egiven(), cls=EI, n=6, args=L.cargs(g), same=lambda a, b: a == b)
