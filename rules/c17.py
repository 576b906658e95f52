"""C17 estimators from samples account for each sample exactly once."""
from .dom import *
from sa.project import load
from .c08 import fkey

EST = NS + r"EstimatorML<.*NormalDistribution<.*"


def check(R):
    R.rule("from construction through any sequence of addPoint / addPoints / reset, the count is the number of points since the last reset, and the "
           "estimate is flagged valid exactly when the maximum-likelihood covariance of those points is positive definite, in which case mean and "
           "covariance are the maximum-likelihood ones; all range forms agree with adding the points one by one")
    R.rule("weighted points yield the weighted mean and covariance; a range whose length differs from the weights is ignored")
    R.rule("a histogram sample inside the range increments exactly its own cell by one, a sample outside none; adding a list adds each element "
           "once; sum, mean, median, mode, variance and the normalised histogram are those of the cell contents; reset empties every cell")
    m = load("lib")
    L = Lib(m, R)
    cs = L.classes(EST)
    if len(cs) < 2:
        R.lost("EstimatorML<NormalDistribution>")
    for c in cs:
        estimator(R, L, c)
    hs = L.classes(NS + r"Histogram<double, .*>")
    if len(hs) < 2:
        R.lost("Histogram")
    for c in hs:
        histogram(R, L, c)


# ------------------------------------------------------------------ estimators
def clean(st):
    return St(st.store, st.facts, (), {})


def ml(I, pts, w=None):
    """(mean, covariance) of the points"""
    if w is None:
        w = [1] * len(pts)
    n = sum(w)
    if not isinstance(pts[0], M):
        mean = sum(a * Fraction(x) for a, x in zip(w, pts)) / n
        return mean, sum(a * (x - mean) ** 2 for a, x in zip(w, pts)) / n
    d = pts[0].r
    mean = [sum(a * Fraction(p.e[i]) for a, p in zip(w, pts)) / n for i in range(d)]
    cov = [sum(a * (p.e[i] - mean[i]) * (p.e[j] - mean[j]) for a, p in zip(w, pts)) / n for i in range(d) for j in range(d)]
    return M(d, 1, mean), M(d, d, cov)


def published(S, L, cls, o, pts, w=None, n=None):
    out = []
    st = clean(o.st)
    out.append(("number of points", S.get(L.method(cls, "getNumPoints", 0), st), len(pts) if n is None else n))
    valid = S.get(L.method(cls, "getValid", 0), st)
    ok = False
    if pts:
        mean, cov = ml(S.I, pts, w)
        ok = S.I.posdef(cov) if isinstance(cov, M) else cov > 0
    out.append(("validity flag", bool(valid), bool(ok)))
    if ok:
        f = L.method(cls, "getDistribution", 0)
        d = outcome(L.run(f, st), S.I)
        if d.loc is None:
            raise Open("distribution")
        dc = next(c for c in L.classes(NS + "NormalDistribution<.*>") if c in f["ret"])
        g = L.methods(dc, "getCovariance", 0) or L.methods(dc, "getVariance", 0)
        out.append(("mean of the estimate", S.get(L.method(dc, "getMean", 0), st, this=d.loc), mean))
        out.append(("covariance of the estimate", S.get(g[0], st, this=d.loc), cov))
    return out


def estimator(R, L, cls):
    one = "<1>" in cls
    pt = "double" if one else None
    ctor = [f for f in L.m.methods(cls) if f["kind"] == "ctor" and not f["params"]]
    add = L.method(cls, "addPoint", 1)
    lst = [f for f in L.methods(cls, "addPoints", 1)]
    itr = [f for f in L.methods(cls, "addPoints", 2)]
    wgt = [f for f in L.methods(cls, "addPoints", 3)]
    rst = L.method(cls, "reset", 0)
    if not (ctor and add and lst and itr and wgt and rst):
        R.lost("estimator operations of " + cls)
        return
    try:
        s0 = clean([o for o in L.run(ctor[0])][0].st)
    except Undecided as e:
        R.und(cls, where(ctor[0]), str(e))
        return
    contract(L, R, fkey(ctor[0]), ctor[0], lambda S, o: published(S, L, cls, o, []), n=3)
    pt = add["params"][0]["t"].replace("const ", "").replace(" &", "")

    def points(pre, k):
        out, val = [], []
        for i in range(k):
            y = sym(f"{pre}{i}")
            TYPES[mk("deref", y)] = pt
            out.append((("o", y), ()))
            val.append(mk("deref", y))
        return out, val

    # reachable base states: nothing, k single points, points then reset
    bases = [("empty", s0, [])]
    st, vals = s0, []
    args, leaves = points("p", 4)
    for i in range(4):
        nxt = L.run(add, st, (args[i],))
        if len(nxt) > 40:
            break
        vals = vals + [leaves[i]]
        merged = nxt
        for j, o in enumerate(merged):
            if o.kind == "ret":
                bases.append((f"{i + 1} points", clean(o.st), list(vals)))
        if i >= 2:
            break
        st = clean(o.st)
    resets = []
    for lab, b, v in bases[1:]:
        for o in L.run(rst, b):
            resets.append((lab + " and a reset", clean(o.st), []))
    contr(R, L, cls, rst, bases, lambda S, v, a: ([], None), [()])
    allb = bases + resets
    contr(R, L, cls, add, allb, lambda S, v, a: ([S.I(x) for x in v] + [S.I(leaves[3])], None), [(args[3],)])
    for f in lst:
        a = L.cargs(f, "n")
        contr(R, L, cls, f, allb, lambda S, v, a: ([S.I(x) for x in v] + seq(S.I(mk("deref", a[0][0][1]))), None), [a])
    for f in itr:
        ext = []
        for lab, st, v in allb:
            st, a, c = iters(L, st, pt)
            ext.append((lab, st, v, a))
        contr(R, L, cls, f, ext, lambda S, v, a: ([S.I(x) for x in v] + seq(S.I(c)), None), None)
    for f in wgt:
        s0, a, c = iters(L, s0, pt)
        y = sym("w")
        TYPES[mk("deref", y)] = f["params"][2]["t"].replace("const ", "").replace(" &", "")
        a = (a[0], a[1], (("o", y), ()))
        weighted(R, L, cls, f, s0, a, c, mk("deref", y))


def iters(L, st, pt):
    """state holding begin/end iterators of a symbolic container, their locations, the container"""
    y = sym("pts")
    loc = (("o", y), ())
    TYPES[mk("deref", y)] = f"std::vector<{pt}, std::allocator<{pt}>>"
    st, b = L.E.tmp(st, L.E.iter_of(st, loc, "begin"))
    st, e = L.E.tmp(st, L.E.iter_of(st, loc, "end"))
    return st, (b, e), mk("deref", y)


def seq(v):
    if not isinstance(v, (Seq, M)):
        raise Open("container")
    return list(v.e)


def contr(R, L, cls, f, bases, want, argsets):
    tot = 0
    n0 = len(R.obl)
    for lab, st, v, *own in bases:
        if not any(holds(st.facts, Interp(7919 * i + 13, None, ("gen", "mix", "pos")[i % 3], 6)) for i in range(40)):
            continue
        for a in own or argsets:
            def spec(S, o, st=st, v=v, a=a):
                if holds(st.facts, S.I) is not True:
                    return None
                pts, w = want(S, v, a)
                return published(S, L, cls, o, pts, w)
            c = contract(L, R, f"{fkey(f)} after {lab}", f, spec, st, a or None, n=60, mode=("gen", "mix", "pos"), maxlen=6, quiet=True)
            tot += c["ret"] if c else 0
    if len(R.obl) == n0:
        (R.ok if tot else R.und)(f"{fkey(f)} after {bases[0][0]} .. {bases[-1][0]}", where(f), f"agrees on {tot} models, {len(bases)} histories")


def weighted(R, L, cls, f, st, a, c, wl):
    def spec(S, o):
        pts, w = seq(S.I(c)), seq(S.I(wl))
        if len(pts) != len(w) or not pts:
            return published(S, L, cls, o, [])
        if sum(w) <= 0 or any(x < 0 for x in w):
            return None
        return published(S, L, cls, o, pts, w, 0)
    contract(L, R, fkey(f), f, spec, st, a, n=200, mode=("gen", "mix", "pos"), maxlen=4)

def center(p, idx):
    return [Fraction(a) + (i + Fraction(1, 2)) * r for a, i, r in zip(vec(p["min"]), idx, vec(p["res"]))]


def cell_of(p, n, x):
    """index of the cell holding x, None outside the range"""
    out = []
    for a, b, r, k, v in zip(vec(p["min"]), vec(p["max"]), vec(p["res"]), n, vec(x)):
        if not a <= v <= b:
            return None
        out.append(min(int((v - a) / r), k - 1))
    return out


def allidx(n):
    r = [[]]
    for k in n:
        r = [x + [i] for x in r for i in range(k)]
    return r


def histogram(R, L, cls):
    s = next(x for x in SUBJECTS if x.key == "Histogram")
    c = s.ctors(L, cls)
    cells1, addm = L.method(cls, "getCell", 1, const=True), L.method(cls, "addSample", 1)
    adds, rst, summ = L.method(cls, "addSamples", 1), L.method(cls, "reset", 0), L.method(cls, "getSum", 0)
    if not c or None in (cells1, addm, adds, rst, summ):
        R.lost("histogram operations of " + cls)
        return
    ca = L.cargs(c[0], "c")
    try:
        s0 = [clean(o.st) for o in L.run(c[0], args=ca) if o.kind == "ret"]
    except Undecided as e:
        R.und(cls, where(c[0]), str(e))
        return
    pleaf = [x if isinstance(x, T) else mk("deref", x[0][1]) for x in ca]
    dim = cls.rstrip("> ").endswith("1")
    scalar = "Matrix" not in c[0]["params"][0]["t"]
    iy = sym("idx")

    ndim = 1 if dim else int(re.search(r"(\d+)>$", cls).group(1))

    def given(i):
        return given_for(pleaf, ndim, 0, scalar, 0)(i % 3)

    def content(S, st, p):
        """cell contents by index"""
        n = cells(S.I, p, 0)
        TYPES[mk("deref", iy)] = f"Eigen::Matrix<int, {len(n)}, 1, 0, {len(n)}, 1>"
        out = {}
        for idx in allidx(n):
            g = dict(S.I.given)
            g[mk("deref", iy)] = M(len(n), 1, idx)
            J = Interp(S.I.seed, g, S.I.mode, S.I.maxlen)
            J.extra = S.I.extra
            out[tuple(idx)] = Spec(L, J).get(cells1, st, ((("o", iy), ()),))
        return n, out

    def params(S, st):
        return pvals(S, L, s, cls, st)

    def compare(S, o, want, st0):
        p = params(S, clean(o.st))
        n, got = content(S, clean(o.st), p)
        return [(f"cell {list(k)}", got[k], want.get(k, 0)) for k in got]

    for st in s0:
        a = L.cargs(adds, "s")
        b = L.cargs(addm, "x")
        leaf = mk("deref", a[0][0][1])
        xs = b[0] if isinstance(b[0], T) else mk("deref", b[0][0][1])

        def counts(S, pts):
            p = params(S, st)
            n = cells(S.I, p, 0)
            w = {}
            for x in pts:
                i = cell_of(p, n, x)
                if i is not None:
                    w[tuple(i)] = w.get(tuple(i), 0) + 1
            return w
        contract(L, R, fkey(addm), addm, lambda S, o: compare(S, o, counts(S, [S.I(xs)]), st), st, b, n=60, given=given)
        contract(L, R, fkey(adds), adds, lambda S, o: compare(S, o, counts(S, seq(S.I(leaf))), st), st, a, n=45, given=given, maxlen=5)
        try:
            filled = [clean(o.st) for o in L.run(adds, st, a) if o.kind == "ret"]
        except Undecided as e:
            R.und(fkey(adds), where(adds), str(e))
            continue
        for f2 in filled:
            statistics(R, L, cls, f2, given, params, content, compare, counts, leaf, addm, b, xs, rst)


def served(fn):
    return lambda S, o: [] if o.kind == "throw" else fn(S, o)


def statistics(R, L, cls, st, given, params, content, compare, counts, leaf, addm, b, xs, rst):
    contract(L, R, fkey(addm) + " after samples", addm, lambda S, o: compare(S, o, counts(S, seq(S.I(leaf)) + [S.I(xs)]), st), st, b,
             n=30, given=given, maxlen=4)
    contract(L, R, fkey(rst) + " after samples", rst, lambda S, o: compare(S, o, {}, st), st, n=9, given=given, maxlen=4)

    def moments(S):
        p = params(S, st)
        n, c = content(S, st, p)
        tot = sum(c.values())
        mean = None
        if tot:
            mean = [sum(c[k] * center(p, k)[i] for k in c) / Fraction(tot) for i in range(len(n))]
        return p, n, c, tot, mean

    def one(x, k):
        return M(len(x), 1, x) if k else x[0]

    def f_sum(S, o):
        return [("value", S.I(o.val), moments(S)[3])]

    def f_mean(S, o):
        p, n, c, tot, mean = moments(S)
        return [("value", S.I(o.val), one(mean, len(n) > 1))] if mean else None

    def f_mode(S, o):
        p, n, c, tot, mean = moments(S)
        best = max(c.values())
        v = vec(S.I(o.val))
        return [("is the centre of a fullest cell", any(equal(M(len(v), 1, v), M(len(v), 1, center(p, k))) for k in c if c[k] == best), True)]

    def f_median(S, o):
        p, n, c, tot, mean = moments(S)
        acc = 0
        if not tot:
            return None
        for k in sorted(c):
            acc += c[k]
            if acc * 2 >= tot:
                return [("value", S.I(o.val), center(p, k)[0])]

    def f_var(S, o):
        p, n, c, tot, mean = moments(S)
        if tot < 2:
            return None
        d = len(n)
        cov = [sum(c[k] * (center(p, k)[i] - mean[i]) * (center(p, k)[j] - mean[j]) for k in c) / (tot - 1) for i in range(d) for j in range(d)]
        return [("value", S.I(o.val), M(d, d, cov) if d > 1 else cov[0])]

    def f_norm(S, o):
        p, n, c, tot, mean = moments(S)
        if not tot:
            return None
        s2, loc = L.E.tmp(o.st, o.val)
        s2 = clean(s2)
        out = [("receiver's sum", S.get(L.method(cls, "getSum", 0), s2), tot)]
        g = L.method(cls, "getCell", 1, const=True)
        iy = sym("idx2")
        TYPES[mk("deref", iy)] = f"Eigen::Matrix<int, {len(n)}, 1, 0, {len(n)}, 1>"
        for k in c:
            gv = dict(S.I.given)
            gv[mk("deref", iy)] = M(len(n), 1, list(k))
            J = Interp(S.I.seed, gv, S.I.mode, S.I.maxlen)
            J.extra = S.I.extra
            out.append((f"normalised cell {list(k)}", Spec(L, J).get(g, s2, ((("o", iy), ()),), this=loc), Fraction(c[k]) / tot))
        return out
    for name, fn in (("getSum", f_sum), ("getMean", f_mean), ("getMode", f_mode), ("getMedian", f_median), ("getVariance", f_var),
                     ("getCovariance", f_var), ("getNormalized", f_norm)):
        for f in L.methods(cls, name, 0):
            contract(L, R, fkey(f), f, served(fn), st, n=24, given=given, maxlen=4, mode=("mix", "gen"))
