"""C03 published results are complete and come from their own source."""
from .est import *
from .c01 import accepted


def expect(w, s, k):
    """what every quantity must be after solve number k ended in solver state s"""
    un = Slv(s.m, s.opt, "unscaled", None)
    sc = Slv(s.m, s.opt, "scaled", None)
    on = w.opts["getOptions", "columnScaling"]
    e = {}
    for n, q in SCALED.items():
        e[n] = w.query(q, un)
        e[n + "Scaled"] = w.query(q, sc) if on else EMPTIED
    for n, q in PLAIN.items():
        e[n] = w.query(q, un)
    v = w.srv(k).f
    for n, q in SRV.items():
        e[n] = v[q]
    return e


def check(R):
    R.rule("on every path of addBatch and reoptimize every field of the returned summary equals the solver query (or optimiser result) of the same meaning made in this "
           "call after the optimisation, in the unscaled system after the marginal analysis, in the scaled one before it, emptied when scaling is off")
    R.rule("after a kept batch or a re-optimisation every accessor's summary evaluates to that same quantity, scaled or unscaled as asked")
    E = Est(R)
    if not E.ok():
        return
    L = E.L
    for key, f, kind in E.entries():
        def spec(S, o, kind=kind):
            w = S.I.W
            if o.kind == "throw":
                return None
            s = E.slv(S, o)
            if s.opt == "before":
                return None
            r = S.I(o.val)
            if not isinstance(r, Rec):
                raise Open("summary")
            out = []
            for n, v in expect(w, s, 0).items():
                if n not in r.f:
                    out.append((n + " filled", False, True))
                else:
                    out.append((n, r.f[n], v))
            if kind == "reopt":
                out += [("batchAccepted", bool(r.f.get("batchAccepted")), True), ("informationGain", r.f.get("informationGain"), 0)]
            t = r.f.get("elapsedTime")
            out.append(("elapsed time positive", bool(isn(t) and t > 0), True))
            return out
        if kind in ("add", "reopt"):
            contract(L, R, "summary of " + key, f, spec, given=E.given(kind), cls=EI, n=240, same=esame)
        accessors(R, E, key, f, kind)
    # accessors on their own
    for n in list(ACC) + list(ANY) + list(COST) + ["getInformationGain", "getMargGroupId"]:
        if not L.methods(IE, n, 0):
            R.lost("IncrementalEstimator::" + n)


def accessors(R, E, key, f, kind):
    L = E.L

    def live(S, o):
        if o.kind == "throw" or kind == "add" and not accepted(S, o):
            return None
        s = E.slv(S, o)
        return None if s.opt == "before" else s
    rows = [(n, None, lambda w, s, q=q: w.query(q, Slv(s.m, s.opt, "unscaled", None))) for n, q in {**ACC, **ANY}.items()]
    for n, q in ACCM.items():
        rows.append((n, False, lambda w, s, q=q: w.query(q, Slv(s.m, s.opt, "unscaled", None))))
        rows.append((n, True, lambda w, s, q=q: w.query(q, Slv(s.m, s.opt, "scaled", None)) if w.opts["getOptions", "columnScaling"] else EMPTIED))
    for n, q in COST.items():
        rows.append((n, None, lambda w, s, q=q: w.srv(0).f[q]))
    rows.append(("getInformationGain", None, lambda w, s: Fraction_(w.query("getSingularValuesLog2Sum", Slv(s.m, s.opt, "unscaled", None)) -
                                                                    w.mem["svLog2Sum"], 2) if kind == "add" else 0))
    rows.append(("getMargGroupId", None, lambda w, s: Name(w.marg)))
    for n, a, want in rows:
        def spec(S, o, n=n, a=a, want=want):
            s = live(S, o)
            if s is None:
                return None
            return [("result", E.accessor(S, n, o.st, a), want(S.I.W, s))]
        contract(L, R, f"{n}({'' if a is None else int(a)}) after {key}", f, spec, given=E.given(kind), cls=EI, n=90, same=esame)
    for n, want in (("getNumBatches", lambda w, p: len(p.b)),):
        def spec(S, o, n=n, want=want):
            if o.kind == "throw":
                return None
            return [("result", E.accessor(S, n, o.st), want(S.I.W, E.prob(S, o)))]
        contract(L, R, f"{n}() after {key}", f, spec, given=E.given(kind), cls=EI, n=60, same=esame)
