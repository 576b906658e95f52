"""C01 a rejected batch leaves no trace."""
from .est import *


def published(E):
    """const accessors that hand out results: (name, argument values)"""
    out = []
    for f in E.L.methods(IE):
        if not f.get("const") or f.get("access") in ("private", "protected") or f.get("body") is None:
            continue
        if f["n"] in ("getProblem", "getOptimizer", "getNumBatches", "getJacobianTranspose", "getLinearSolverOptions", "getOptimizerOptions", "getOptions"):
            continue
        if not f["params"]:
            out.append((f, None))
        elif len(f["params"]) == 1 and f["params"][0]["tk"] == "b":
            out += [(f, True), (f, False)]
    return sorted(out, key=lambda x: (x[0]["n"], str(x[1])))


def value(E, S, f, a, st):
    o = outcome(E.L.run(f, st, None if a is None else [TRUE if a else FALSE]), S.I)
    if o.kind == "throw":
        raise Bottom("accessor throws")
    return S.I(E.L.E.read(o.st, o.loc)) if o.loc is not None else S.I(o.val)


def accepted(S, o):
    r = S.I(o.val)
    if not isinstance(r, Rec) or "batchAccepted" not in r.f:
        raise Open("summary")
    return bool(r.f["batchAccepted"])


def check(R):
    R.rule("on every path of addBatch that reports rejection or refuses: the problem is the one of entry (batches and values of the design variables, with the "
           "save and restore around the optimisation covering every variable), every accessor's summary evaluates to what it was on entry, and the "
           "linear solver is rebuilt for the remaining variables and error terms")
    R.rule("on every path that reports acceptance: the batch is in the problem with the optimised values and every stored result comes from this optimisation")
    E = Est(R)
    if not E.ok():
        return
    pub = published(E)
    if len(pub) < 12:
        R.lost("accessors of IncrementalEstimator")
    f = E.add

    def spec(S, o):
        w = S.I.W
        p, s = E.prob(S, o), E.slv(S, o)
        if o.kind == "throw":
            return "throw" if p.b == w.prob0.b and p.v == "v0" else [("refused with batches", p.b, w.prob0.b)]
        if w.marg not in w.after_add().o:
            return None
        out = []
        if accepted(S, o):
            out += [("batches", p.b, w.prob0.b + ("new",)), ("values", p.v, "opt(" + ",".join(w.prob0.b + ("new",)) + "|v0)")]
            return out
        out += [("batches after rejection", p.b, w.prob0.b), ("values after rejection", p.v, "v0")]
        if w.prob0.b:
            out.append(("solver system after rejection", s.sys,
                        ("built", tuple(d for d in w.dvs(p) if w.w[d]["isActive"]), tuple(e for b in p.b for e in w.bynm[b].ets))))
        return out
    contract(E.L, R, "IncrementalEstimator::addBatch", f, spec, given=E.given("add"), cls=EI, n=400, same=esame, need=("ret", "throw"))
    for g, a in pub:
        def spec2(S, o, g=g, a=a):
            w = S.I.W
            if o.kind == "throw":
                return "throw" if esame(value(E, S, g, a, o.st), value(E, S, g, a, None)) else [("result after refusal", 0, 1)]
            if accepted(S, o):
                return None
            return [("result after rejection", value(E, S, g, a, o.st), value(E, S, g, a, None))]
        contract(E.L, R, "addBatch, " + g["n"] + ("" if a is None else "(%d)" % a), f, spec2, given=E.given("add"), cls=EI, n=160, same=esame)
    # what the next decision is compared with
    for mname, what in (("_svLog2Sum", "log sum kept for the next gain"),):
        if mname in [x[0] for x in E.m.all_fields(IE)]:
            def spec3(S, o, mname=mname, what=what):
                if o.kind == "throw" or accepted(S, o):
                    return None
                return [(what, S.I(E.L.rd(o.st, (mname,))), S.I(E.L.rd(St(), (mname,))))]
            contract(E.L, R, "addBatch, " + mname, f, spec3, given=E.given("add"), cls=EI, n=160, same=esame)
    rebuild(R, E)


def rebuild(R, E):
    """block indices, column and row bases set while the solver is rebuilt"""
    f = E.add

    def spec(S, o):
        w = S.I.W
        if o.kind == "throw" or accepted(S, o) or not w.prob0.b:
            return None
        p = E.prob(S, o)
        ev = replay(o.trace, S.I, ("setBlockIndex", "setColumnBase", "setRowBase", "initMatrixStructure"))
        got = {}
        last = max((i for i, e in enumerate(ev) if e[0] == "initMatrixStructure"), default=None)
        if last is None:
            return [("solver rebuilt", False, True)]
        for n, r, a in ev[:last]:
            if not isinstance(r, Obj):
                raise Open("receiver")
            if isn(a[0]):
                got[n, r.n] = int(a[0])
            else:
                raise Open("value of " + n)
        want, k, c = {}, 0, 0
        for d in w.dvs(p):
            if w.w[d]["isActive"]:
                want["setBlockIndex", d], want["setColumnBase", d] = k, c
                k += 1
                c += w.w[d]["minimalDimensions"]
        r = 0
        for b in p.b:
            for e in w.bynm[b].ets:
                want["setRowBase", e] = r
                r += w.w[e]["dimension"]
        return [(f"{n} of {d}", got.get((n, d)), v) for (n, d), v in want.items()]
    contract(E.L, R, "addBatch, columns and rows after rejection", f, spec, given=E.given("add"), cls=EI, n=200, same=lambda a, b: a == b)
