"""C08 on the optimisation problems and the estimator."""
from .est import *
from . import core, c05, c05p, c06


def check(R):
    R.rule("optimisation problems: on every refusing path of every operation every member evaluates, on problems built from up to three batches, to its value from "
           "entry; estimator: the problem (batches, order, values) and every published result are those of entry")
    core.MODE = "refusal"
    L = Lib(load("core"), R, opaque=opaque, pure=pure)
    c05.incremental(L, R)
    c05p.problem(L, R)
    c06.removals(R)
    core.MODE = None
    estimator(R)


def estimator(R):
    from .c01 import published, value
    from .c04 import expected_problem
    E = Est(R)
    if not E.ok():
        return
    pub = published(E)
    for key, f, kind in E.entries():
        def spec(S, o, kind=kind, lone=False):
            if o.kind != "throw":
                return None
            w, p = S.I.W, E.prob(S, o)
            todo = expected_problem(w, kind, S)[0]
            if kind in ("index", "pointer") and (todo is not None and w.marg not in todo.o) != lone:
                return None
            keep = [(g["n"] + " after a refusal", value(E, S, g, a, o.st), value(E, S, g, a, None)) for g, a in pub]
            return ("throw", ([] if lone else [("batches after a refusal", p.b, w.prob0.b)]) + [("values after a refusal", p.v, w.prob0.v)] + keep)
        contract(E.L, R, "IncrementalEstimator::" + key, f, spec, given=E.given(kind), cls=EI, n=200, same=esame,
                 need=("throw",) if kind in ("add", "reopt") else ())
        if kind in ("index", "pointer"):
            def spec2(S, o, kind=kind):
                if o.kind != "throw":
                    return None
                w, p = S.I.W, E.prob(S, o)
                todo = expected_problem(w, kind, S)[0]
                if todo is None or w.marg in todo.o:
                    return None
                return ("throw", [("batches", p.b, w.prob0.b)])
            lone = "removal of the last batch with the calibration group"
            contract(E.L, R, f"IncrementalEstimator::{key}, {lone}, results", f, lambda S, o, g=spec: g(S, o, lone=True), given=E.given(kind),
                     cls=EI, n=200, same=esame, need=())
            contract(E.L, R, f"IncrementalEstimator::{key}, {lone}", f, spec2, given=E.given(kind), cls=EI, n=200, same=esame, need=())
