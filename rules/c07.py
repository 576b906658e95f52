"""C07 out-of-range access is refused, in-range access is served."""
from .dom import *
from sa.project import load
from .c08 import fkey

GRIDS = [("Grid<real>", 0), ("Grid<int>", 1), ("Histogram", 0)]


def check(R):
    R.rule("a grid accessor raises exactly for indices with a component outside [0, cells) and for points outside [minimum, maximum]; otherwise the "
           "element lies inside the container, different indices designate different elements, the index of a point is the cell that contains it, "
           "the coordinates of an index lie in that cell, and const, non-const, [] and () variants designate the same element")
    R.rule("stepping an index visits every cell exactly once and then equals the number of cells")
    R.rule("column ranges are refused exactly when empty or reaching past the last column")
    m = load("lib")
    L = Lib(m, R)
    for key, k in GRIDS:
        s = next(x for x in SUBJECTS if x.key == key)
        cs = s.classes(L)
        if not cs:
            R.lost(key)
        for cls in cs:
            grid(R, L, s, cls, k)
    columns(R, L)
    problems(R)


def problems(R):
    """index, group and membership accessors of the optimisation problems"""
    from . import core, c05, c05p, c06
    R.rule("the optimisation problems' accessors by index, group, design variable or position raise exactly when what they are asked for is not there, "
           "and never evaluate an element that is not there")
    m = load("core")
    core.MODE = "bounds"
    try:
        names = ("getDesignVariablesGroup", "getGroupId", "getGroupDim", "designVariableImplementation", "errorTermImplementation",
                 "getOptimizationProblem", "getErrorTerms", "permuteOptimizationProblems", "permuteErrorTerms", "permuteDesignVariables")
        c05.incremental(Lib(m, R, opaque=core.opaque, pure=core.pure), R, only=names)
        c05p.problem(Lib(m, R, opaque=core.opaque, pure=core.pure), R, only=names)
        c06.removals(R)
    finally:
        core.MODE = None


def lockey(I, loc):
    def part(x):
        if isinstance(x, T):
            return ck(I(x))
        if isinstance(x, tuple):
            return tuple(part(y) for y in x)
        return x
    if loc is None:
        raise Open("no location")
    return part(loc[0]), part(loc[1])


def linear(I, loc):
    """the position inside the container a location ends in"""
    for p in reversed(loc[1]):
        if isinstance(p, tuple) and p[0] == "i":
            v = I(p[1][0])
            return v
    raise Open("no element")


ROUND = [(-1.0, 0.0, 0.25, -1e-20), (-3.0, 0.0, 1.0, -1e-17), (-1.0, 1.0, 0.5, 1.0 - 2.0 ** -53), (0.0, 0.3, 0.1, 0.3 - 2.0 ** -54), (-4.0, 0.0, 2.0, -1e-30)]


def rounding(L, R, key, f, s, cls, st, pa, pl, pleaf, dim, scalar):
    """points just below the maximum, in double precision: the cell exists although differences round up"""
    done = 0
    try:
        outs = L.run(f, st, pa)
    except Undecided as e:
        R.und(key + "/rounding", where(f), str(e))
        return
    why = "no model"
    for mn, mx, rs, x in ROUND:
        one = lambda v: M(dim, 1, [float(v)] * dim)
        lv = [float(v) if scalar else one(v) for v in (mn, mx, rs)]
        I = Interp(7, dict(zip(pleaf, lv)) | {pl: one(x)}, "gen")
        I.fp = True
        try:
            o = outcome(outs, I)
            n = [math.ceil((mx - mn) / rs)] * dim
            if o.kind == "throw":
                R.viol(key + "/rounding", where(f, o.line), f"refuses {x} in [{mn}, {mx}]")
                return
            v = vec(I(o.val))
        except (Bottom, Open) as e:
            why = str(e)
            continue
        if not all(0 <= a < b for a, b in zip(v, n)):
            R.viol(key + "/rounding", where(f, o.line), f"index {[int(a) for a in v]} of {x} in [{mn}, {mx}] with resolution {rs} designates none of {[int(b) for b in n]} cells")
            return
        done += 1
    R.ok(key + "/rounding", where(f), f"{done} points next to the maximum designate a cell") if done else R.und(key + "/rounding", where(f), why)


def at(S, I, leaf, v):
    g = dict(I.given)
    g[leaf] = v
    J = Interp(I.seed, g, I.mode, I.maxlen)
    J.extra = I.extra
    return J


def grid(R, L, s, cls, k):
    c = s.ctors(L, cls)
    if not c:
        R.lost("constructor of " + cls)
        return
    ca = L.cargs(c[0], "c")
    pleaf = [x if isinstance(x, T) else mk("deref", x[0][1]) for x in ca]
    scalar = "Matrix" not in c[0]["params"][0]["t"]
    gi = L.method(cls, "getIndex", 1)
    if gi is None:
        return
    dim = int(re.search(r"Matrix<\w+, (\d+)", gi["params"][0]["t"]).group(1))
    given = given_for(pleaf, dim, k, scalar, k)
    try:
        sts = [St(o.st.store, o.st.facts, (), {}) for o in L.run(c[0], args=ca) if o.kind == "ret"]
    except Undecided as e:
        R.und(cls, where(c[0]), str(e))
        return
    ityp = f"Eigen::Matrix<int, {dim}, 1, 0, {dim}, 1>"
    iy = sym("index")
    TYPES[mk("deref", iy)] = ityp
    il = mk("deref", iy)
    iarg = ((("o", iy), ()),)
    need = ("ret", "throw")
    kw = dict(n=160, given=given, mode=("mix", "gen"), need=need)

    def num_cells(S, st):
        return cells(S.I, pvals(S, L, s, cls, st), k)

    def valid(S, st, v):
        return all(0 <= x < n for x, n in zip(vec(v), num_cells(S, st)))

    def within(p, v):
        return all(a <= x <= b for a, x, b in zip(vec(p["min"]), vec(v), vec(p["max"])))

    def cell(p, n, v):
        out = []
        for a, r, m_, x in zip(vec(p["min"]), vec(p["res"]), n, vec(v)):
            out.append(min(int((x - a) // r), m_ - 1))
        return out
    getc = L.methods(cls, "getCell", 1)
    if not getc:
        R.lost(cls + "::getCell")
        return
    ref = getc[0]
    for st in sts:
        # ---- elements by index
        for name in ("getCell", "operator[]"):
            fs = L.methods(cls, name, 1)
            if not fs:
                R.lost(cls + "::" + name)
            for f in fs:
                def spec(S, o, f=f):
                    v = S.I(il)
                    if not valid(S, st, v):
                        return "throw"
                    if o.kind == "throw":
                        return []
                    n = num_cells(S, st)
                    lin = linear(S.I, o.loc)
                    out = [("element inside the container", bool(0 <= lin < prod(n)), True),
                           ("same element as getCell", lockey(S.I, o.loc), lockey(S.I, outcome(L.run(ref, st, iarg), S.I).loc))]
                    for w in allidx(n):
                        if w != vec(v):
                            J = at(S, S.I, il, M(dim, 1, w))
                            out.append((f"element differs from that of {w}", lockey(J, outcome(L.run(f, st, iarg), J).loc) !=
                                        lockey(S.I, o.loc), True))
                    return out
                contract(L, R, fkey(f) + " on " + cls, f, spec, st, iarg, **kw)
        # ---- points
        pa = L.cargs(gi, "p")
        pl = mk("deref", pa[0][0][1])
        for f in L.methods(cls, "getIndex", 1):
            def spec(S, o):
                p, v = pvals(S, L, s, cls, st), S.I(pl)
                if not within(p, v):
                    return "throw"
                return [("index", S.I(o.val), M(dim, 1, cell(p, num_cells(S, st), v)))] if o.kind != "throw" else []
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, pa, **dict(kw, n=400))
            if not k:
                rounding(L, R, fkey(f) + " on " + cls, f, s, cls, st, pa, pl, pleaf, dim, scalar)
        for f in L.methods(cls, "operator()", 1):
            def spec(S, o):
                p, v = pvals(S, L, s, cls, st), S.I(pl)
                if not within(p, v):
                    return "throw"
                if o.kind == "throw":
                    return []
                J = at(S, S.I, il, M(dim, 1, cell(p, num_cells(S, st), v)))
                return [("element", lockey(S.I, o.loc), lockey(J, outcome(L.run(ref, st, iarg), J).loc))]
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, pa, **dict(kw, n=300))
        for f in L.methods(cls, "isInRange", 1):
            contract(L, R, fkey(f) + " on " + cls, f,
                     lambda S, o: [("verdict", bool(S.I.bool(o.val)), within(pvals(S, L, s, cls, st), S.I(pl)))], st, pa, **dict(kw, need=("ret",)))
        for f in L.methods(cls, "isValidIndex", 1):
            contract(L, R, fkey(f) + " on " + cls, f, lambda S, o: [("verdict", bool(S.I.bool(o.val)), valid(S, st, S.I(il)))], st, iarg,
                     **dict(kw, need=("ret",)))
        for f in L.methods(cls, "getCoordinates", 1):
            def spec(S, o):
                v = S.I(il)
                if not valid(S, st, v):
                    return "throw"
                if o.kind == "throw":
                    return []
                p = pvals(S, L, s, cls, st)
                out = []
                for i, (a, r, x, y) in enumerate(zip(vec(p["min"]), vec(p["res"]), vec(v), vec(S.I(o.val)))):
                    out.append((f"component {i} inside the cell", bool(a + x * r <= y < a + (x + 1) * r), True))
                return out
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, iarg, **kw)
        for f in L.methods(cls, "incrementIndex", 1):
            def spec(S, o):
                v = S.I(il)
                n = num_cells(S, st)
                if not valid(S, st, v):
                    return None
                # walk from the first cell
                cur, seen = [0] * dim, []
                out = []
                while cur != n:
                    if not all(0 <= a < b for a, b in zip(cur, n)) or cur in seen:
                        out.append((f"walk from {seen[-1] if seen else cur}", cur, "a fresh cell or the end"))
                        return out
                    seen.append(cur)
                    J = at(S, S.I, il, M(dim, 1, cur))
                    oo = outcome(L.run(f, st, iarg), J)
                    cur = [int(x) for x in vec(J(L.E.read(oo.st, iarg[0])))]
                out.append(("number of cells visited", len(seen), prod(n)))
                return out
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, iarg, **dict(kw, n=24, need=("ret",)))
        for f in L.methods(cls, "computeLinearIndex", 1):
            def spec(S, o):
                v = S.I(il)
                if not valid(S, st, v):
                    return None
                n = num_cells(S, st)
                lin = S.I(o.val)
                others = []
                for w in allidx(n):
                    J = at(S, S.I, il, M(dim, 1, w))
                    others.append(J(outcome(L.run(f, st, iarg), J).val))
                return [("inside the container", bool(0 <= lin < prod(n)), True), ("positions", sorted(int(x) for x in others) == list(range(prod(n))), True)]
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, iarg, **dict(kw, n=40, need=("ret",)))
        # ---- container views
        for f in L.methods(cls, "getCells", 0):
            def spec(S, o):
                v = S.I(L.E.read(o.st, o.loc)) if o.loc is not None else S.I(o.val)
                return [("number of elements", len(v.e), prod(num_cells(S, st)))]
            contract(L, R, fkey(f) + " on " + cls, f, spec, st, **dict(kw, n=12, need=("ret",)))


def allidx(n):
    r = [[]]
    for k in n:
        r = [x + [i] for x in r for i in range(int(k))]
    return r


def columns(R, L):
    hit = False
    for name in ("checkColumnIndices", "computeSumLogDiagR"):
        for f in L.free(NS + name):
            hit = True
            a = L.cargs(f, "x")

            def spec(S, o, a=a):
                r = S.I(mk("deref", a[0][0][1])) if not isinstance(a[0], T) else S.I(a[0])
                b, e = S.I(a[1]), S.I(a[2])
                if not isinstance(r, M):
                    raise Open("matrix")
                return "throw" if b >= e or e >= r.c else ([] if r.r >= r.c or e < r.r else None)
            contract(L, R, fkey(f) + f["params"][0]["t"], f, spec, None, a, n=200, need=("ret", "throw"))
    if not hit:
        R.lost("checkColumnIndices")
