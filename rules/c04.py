"""C04 every solve marginalises exactly the calibration block."""
from .est import *
from . import c05


def check(R):
    R.rule("on every path of every solving operation, the problem handed to the optimiser has the calibration group last and the solver's split, as last "
           "set before the optimisation, equals the sum of the dimensions of all groups minus that of the calibration group in that very problem; without "
           "the calibration group the operation is refused with nothing optimised")
    R.rule("the constructors attach the problem to the optimiser; the dimension of a group is the sum over its active variables")
    E = Est(R)
    if not E.ok():
        return
    for key, f, kind in E.entries():
        def spec(S, o, kind=kind):
            w = S.I.W
            p0 = w.prob0
            todo, refuse = expected_problem(w, kind, S)
            if todo is None:
                return None if kind != "pointer" else ([] if o.kind == "ret" else [("refused", 1, 0)])
            s = E.slv(S, o)
            if w.marg not in todo.o:
                return "throw"
            if o.kind == "throw":
                return [("x", 0, 0)]
            if s.opt == "before":
                return [("optimised", False, True)]
            bs, order, m, v = s.opt
            split = sum(w.gdim(todo, g) for g in todo.o) - w.gdim(todo, w.marg)
            return [("optimised batches", sorted(bs), sorted(todo.b)), ("last group", order[-1], w.marg), ("groups", sorted(order), sorted(todo.o)),
                    ("split", m, split)]
        contract(E.L, R, "IncrementalEstimator::" + key, f, spec, given=E.given(kind), cls=EI, n=300, same=lambda a, b: a == b, need=("ret", "throw"))
        refused(R, E, key, f, kind)
    ctors(R, E)
    dims_(R)


def expected_problem(w, kind, S):
    p0 = w.prob0
    if kind == "add":
        return w.change(p0, "add", [Ptr("new")]), False
    if kind == "reopt":
        return p0, False
    if kind == "pointer":
        if w.target not in p0.b:
            return None, False
        return w.change(p0, "remove", [Ptr(w.target)]), False
    k = S.I(sym("arg0"))
    if not 0 <= k < len(p0.b):
        return None, False
    return w.change(p0, "remove", [k]), False


def refused(R, E, key, f, kind):
    """refusing outcomes optimise nothing"""
    try:
        outs = [o for o in E.L.run(f) if o.kind == "throw"]
    except Undecided:
        return
    for o in outs:
        names = ("optimize", "solveSystem", "analyzeMarginal", "updateImplementation", "update")
        if inside(o.trace, names):
            R.viol("IncrementalEstimator::" + key + "/optimises before refusing", where(f, o.line), "the optimiser runs before the refusal")
        else:
            R.ok("IncrementalEstimator::" + key, where(f, o.line), f"{o.val} raised with nothing optimised")


def ctors(R, E):
    L = E.L
    for f in L.m.methods(IE):
        if f["kind"] != "ctor" or f.get("body") is None:
            continue
        key = "constructor/" + sig(f)
        try:
            outs = [o for o in L.run(f, args=L.cargs(f)) if o.kind == "ret"]
        except Undecided as e:
            R.und(key, where(f), str(e))
            continue
        for o in outs:
            ev = [e for e in o.trace if isinstance(e, Ev) and e.name == "setProblem"]
            p = L.rd(o.st, ("_problem",))
            own = L.rd(o.st, ("_optimizer",))
            good = bool(ev) and ev[-1].args[0] is p and ev[-1].recv is own
            (R.ok if good else R.viol)(key, where(f), "attaches its problem to its optimiser" if good else
                                       f"problem {show(p)[:80]} is not attached to the optimiser ({[show(e.args[0])[:60] for e in ev]})")
        if not outs:
            R.und(key, where(f), "no returning outcome")


def dims_(R):
    L = Lib(load("core"), R, opaque=opaque, pure=pure)
    c05.incremental(L, R, ("getGroupDim", "setGroupsOrdering", "getGroupsOrdering", "designVariableImplementation"))
