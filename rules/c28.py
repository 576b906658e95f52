"""C28 densities, distribution functions and their logarithms are consistent."""
from .dom import *
from sa.project import load
from sa.ev import special
from .c08 import fkey

PI = math.pi
NORM1, NORMM = NS + r"NormalDistribution<1>", NS + r"NormalDistribution<(?!1>).*>"
GAM, CHI = NS + r"GammaDistribution<.*>", NS + r"ChiSquareDistribution"
UNIR, UNII = NS + r"UniformDistribution<(double|float), \d+>", NS + r"UniformDistribution<int, \d+>"


def fl(x):
    return float(x)


def n1_log(I, p, x):
    return -0.5 * float((x - p["mean"]) ** 2) / float(p["variance"]) - 0.5 * log(2 * PI * fl(p["variance"]))


def quad(I, m, d):
    v = M(len(d), 1, d)
    r = I.mm(M(1, len(d), d), I.mm(m, v))
    return r.e[0] if isinstance(r, M) else r


def nm_maha(I, p, x):
    d = [a - b for a, b in zip(vec(x), vec(p["mean"]))]
    return quad(I, I.inv(p["covariance"]), d)


def nm_log(I, p, x):
    k = p["covariance"].r
    return -0.5 * fl(nm_maha(I, p, x)) - 0.5 * k * math.log(2 * PI) - 0.5 * log(I.det(p["covariance"]))


def g_log(I, p, x):
    a, b = fl(p["shape"]), fl(p["invScale"])
    if x < 0:
        return float("-inf")
    if x == 0:
        if a == 1:
            return math.log(b)
        return float("-inf") if a > 1 else float("inf")
    return a * math.log(b) - lg(a) + (a - 1) * log(x) - b * fl(x)


def g_kl(I, p, q):
    a, b, c, d = fl(p["shape"]), fl(p["invScale"]), fl(q["shape"]), fl(q["invScale"])
    return (a - c) * special("digamma", [a]) - lg(a) + lg(c) + c * (math.log(b) - math.log(d)) + a * (d - b) / b


def nm_kl(I, p, q):
    k = p["covariance"].r
    d = [a - b for a, b in zip(vec(p["mean"]), vec(q["mean"]))]
    iq = I.inv(q["covariance"])
    pr = I.mm(iq, p["covariance"])
    return 0.5 * (log(I.det(q["covariance"]) / I.det(p["covariance"])) + fl(sum(pr.e[i * k + i] for i in range(k))) - k + fl(quad(I, iq, d)))


def n1_kl(I, p, q):
    return 0.5 * (log(q["variance"] / p["variance"]) + fl(p["variance"] / q["variance"]) - 1 +
                  fl((p["mean"] - q["mean"]) ** 2 / q["variance"]))


def ind(p, x):
    return all(a <= v <= b for a, v, b in zip(vec(p["min"]), vec(x), vec(p["max"])))


def like(x, v):
    """value v shaped as x"""
    return M(x.r, x.c, v) if isinstance(x, M) else v[0]


def u_mid(I, p):
    return like(p["min"], [Fraction(a + b) / 2 for a, b in zip(vec(p["min"]), vec(p["max"]))])


def u_var(k):
    return lambda I, p: [Fraction((b - a + k) ** 2 - k) / 12 for a, b in zip(vec(p["min"]), vec(p["max"]))]


def u_cov(k):
    return lambda I, p: diagonal(u_var(k)(I, p))


def u_pdf(k):
    return lambda I, p, x: 1 / fl(uni_area(I, p, k)) if ind(p, x) else 0


def chi(p):
    return {"shape": p["degrees"] / 2, "invScale": Fraction(1, 2)}


def mode(I, p):
    if p["shape"] < 1:
        raise Bottom("no mode")
    return (p["shape"] - 1) / p["invScale"]


GA = {
    "pdf": lambda I, p, x: 0 if x < 0 else math.exp(g_log(I, p, x)), "logpdf": g_log,
    "cdf": lambda I, p, x: 0 if x <= 0 else special("gamma_p", [fl(p["shape"]), fl(x * p["invScale"])]),
    "invcdf": lambda I, p, q: special("gamma_p_inv", [fl(p["shape"]), fl(q)]) / fl(p["invScale"]) if 0 <= q < 1 else 1 / 0,
    "getMean": lambda I, p: p["shape"] / p["invScale"], "getVariance": lambda I, p: p["shape"] / p["invScale"] ** 2, "getMode": mode,
}

# subject key -> {method: formula(I, parameters, arguments...)}
FORMS = {
    "NormalDistribution<1>": {
        "pdf": lambda I, p, x: math.exp(n1_log(I, p, x)), "logpdf": n1_log,
        "cdf": lambda I, p, x: 0.5 * (1 + math.erf(fl(x - p["mean"]) / math.sqrt(2 * p["variance"]))),
        "mahalanobisDistance": lambda I, p, x: (x - p["mean"]) ** 2 / p["variance"],
        "getMean": lambda I, p: p["mean"], "getMedian": lambda I, p: p["mean"], "getMode": lambda I, p: p["mean"],
        "getVariance": lambda I, p: p["variance"]},
    "NormalDistribution<M>": {
        "pdf": lambda I, p, x: math.exp(nm_log(I, p, x)), "logpdf": nm_log, "mahalanobisDistance": nm_maha,
        "getMean": lambda I, p: p["mean"], "getMode": lambda I, p: p["mean"], "getCovariance": lambda I, p: p["covariance"]},
    "GammaDistribution": GA,
    "ChiSquareDistribution": {k: (lambda f: lambda I, p, *x: f(I, chi(p), *x))(v) for k, v in GA.items()},
    "UniformDistribution<real>": {
        "pdf": u_pdf(0), "getMean": u_mid, "getMedian": u_mid, "getVariance": lambda I, p: u_var(0)(I, p)[0], "getCovariance": u_cov(0)},
    "UniformDistribution<int>": {
        "pdf": u_pdf(1), "pmf": u_pdf(1), "getMean": u_mid, "getMedian": u_mid, "getVariance": lambda I, p: u_var(1)(I, p)[0],
        "getCovariance": u_cov(1)},
    "LogGammaFunction": {"getValue": lambda I, p, x: sum(lg(fl(x) - 0.5 * i) for i in range(int(p["dim"]))) +
                         p["dim"] * (p["dim"] - 1) * 0.25 * math.log(PI)},
    "IncompleteGammaPFunction": {"getValue": lambda I, p, x: special("gamma_p", [fl(p["alpha"]), fl(x)])},
    "IncompleteGammaQFunction": {"getValue": lambda I, p, x: special("gamma_q", [fl(p["alpha"]), fl(x)])},
}
DIVS = {"NormalDistribution<1>": n1_kl, "NormalDistribution<M>": nm_kl, "GammaDistribution": g_kl}
PLAIN = [(NS + "LogFactorialFunction", lambda I, x: lg(x + 1)), (NS + "LogGammaFunction<unsigned long>", lambda I, x: lg(x) if x > 0 else 1 / 0),
         (NS + "DigammaFunction<.*>", lambda I, x: special("digamma", [fl(x)]))]


class GI(Interp):
    """the logarithm of zero is minus infinity, as in floating-point arithmetic"""
    def fn(self, n, v):
        if n == "log" and len(v) == 1 and isn(v[0]) and v[0] == 0:
            return float("-inf")
        if n == "pow" and len(v) == 2 and isn(v[0]) and isn(v[1]) and v[0] == 0 and v[1] < 0:
            return float("inf")
        return super().fn(n, v)


def guard(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Bottom("reference undefined")
    return g


def check(R):
    R.rule("density, log-density, distribution function, quantile, mean, median, mode and variance computed by each distribution equal "
           "the closed form of its family in the parameters the object reports; the density vanishes outside the support")
    R.rule("a divergence equals the closed form for the two parameter sets and is taken from the receiver to the argument")
    R.rule("the generic entry points getValue and operator() return the density, respectively the function value")
    R.rule("special functions return the function they are named after")
    m = load("lib")
    L = Lib(m, R)
    for s, cls in subjects(L, R):
        if s.key not in FORMS:
            continue
        forms(R, L, s, cls)
    for pat, fn in PLAIN:
        cs = L.classes(pat)
        if not cs:
            R.lost(pat)
        for cls in cs:
            f = L.method(cls, "getValue", 1)
            if f:
                a = L.cargs(f, "x")

                def spec(S, o, f=f, a=a, fn=fn):
                    if o.kind == "throw":
                        return None
                    x = argval(S.I, f, 0, a[0])
                    return [("value", S.I(o.val), guard(fn)(S.I, x))]
                contract(L, R, fkey(f), f, spec, None, a, n=90, mode=("pos", "gen", "mix"))
                generic(R, L, cls, None, f)
    columns(R, L)


def base_states(L, s, cls):
    c = s.ctors(L, cls)[0]
    return [St(o.st.store, o.st.facts, (), {}) for o in L.run(c, args=L.cargs(c, "c")) if o.kind == "ret"]


# parameters and argument at which a formula changes its branch or loses a term
EDGES = {"GammaDistribution": [((1, 2), 0), ((1, 2), Fraction(1, 2)), ((1, 1), 0), ((3, 2), 0), ((2, 1), 0), ((4, 3), Fraction(2, 3)), ((1, Fraction(1, 3)), 1)],
         "ChiSquareDistribution": [((2,), 0), ((2,), 1), ((1,), 1), ((4,), 0)],
         "NormalDistribution<1>": [((1, 2), 1), ((0, 1), 0)]}


def edges(L, s, cls, xs):
    """given(i): every fifth model is one of the edge cases"""
    tab = EDGES.get(s.key)
    if tab is None:
        return None
    ca = L.cargs(s.ctors(L, cls)[0], "c")

    def leaf(x):
        return x if isinstance(x, T) else mk("deref", x[0][1])

    def given(i):
        if i % 5:
            return None
        ps, x = tab[i // 5 % len(tab)]
        g = {leaf(l): v for l, v in zip(ca, ps)}
        if xs:
            g[leaf(xs[0])] = x
        return g
    return given


def forms(R, L, s, cls):
    try:
        sts = base_states(L, s, cls)
    except (Undecided, IndexError):
        R.lost("constructor of " + cls)
        return
    for st in sts:
        for name, fn in FORMS[s.key].items():
            for f in L.methods(cls, name, fn.__code__.co_argcount - 2 if "chi" not in fn.__code__.co_freevars and fn.__code__.co_flags & 4 == 0 else None):
                a = L.cargs(f, "x")

                def spec(S, o, f=f, a=a, fn=fn):
                    if holds(st.facts, S.I) is not True:
                        return None
                    p = pvals(S, L, s, cls, st)
                    xs = [argval(S.I, f, i, x) for i, x in enumerate(a)]
                    want = guard(fn)(S.I, p, *xs)
                    if o.kind == "throw":
                        return [("served", False, True)]
                    try:
                        got = S.I(o.val)
                    except Bottom as e:
                        if not S.I.given or str(e).startswith("uninit"):
                            raise
                        got = f"not a number ({e})"
                    return [("value", got, want)]
                contract(L, R, fkey(f), f, spec, st, a, n=150, mode=("pos", "gen", "mix"), given=edges(L, s, cls, a), cls=GI if s.key in ("GammaDistribution", "ChiSquareDistribution") else Interp)
        g = L.methods(cls, "getValue", 1)
        d = L.methods(cls, "pdf", 1)
        for f in g:
            if d:
                generic(R, L, cls, st, d[0])
            else:
                generic(R, L, cls, st, f)
        if s.key in DIVS:
            divergence(R, L, s, cls, st, DIVS[s.key])
        med = L.methods(cls, "getMedian", 0) if s.key == "ChiSquareDistribution" else []
        for f in med:
            def spec(S, o):
                if o.kind == "throw" or holds(st.facts, S.I) is not True:
                    return None
                k = fl(pvals(S, L, s, cls, st)["degrees"])
                if k < 1:
                    return None
                q = 2 * special("gamma_p_inv", [k / 2, 0.5])
                return [("within 5% of the median", abs(fl(S.I(o.val)) - q) <= 0.05 * q, True)]
            contract(L, R, fkey(f), f, spec, st, n=80, mode=("pos", "gen"))


def generic(R, L, cls, st, f):
    """getValue and operator() agree with f"""
    for name in ("getValue", "operator()"):
        for g in L.methods(cls, name, 1):
            if g is f or g["id"] == f["id"]:
                continue
            a = L.cargs(g, "x")

            def spec(S, o):
                if st is not None and holds(st.facts, S.I) is not True:
                    return None
                r = S.call(f, st, a)
                if r[0] == "throw":
                    return "throw"
                return [("value", S.I(o.val), r[1])]
            try:
                outs = L.run(g, st, a, dyn=cls)
            except Undecided as e:
                R.und(fkey(g) + " on " + cls, where(g), str(e))
                continue
            contract(L, R, fkey(g) + " on " + cls, g, spec, st, a, n=40, mode=("pos", "gen", "mix"), dyn=cls)


def divergence(R, L, s, cls, st, fn):
    for f in L.methods(cls, "KLDivergence", 1):
        c = s.ctors(L, cls)[0]
        try:
            outs = [o for o in L.run(c, st=st, args=L.cargs(c, "d"), this=OTHER) if o.kind == "ret"]
        except Undecided as e:
            R.und(fkey(f), where(f), str(e))
            continue
        for o2 in outs:
            s2 = St(o2.st.store, o2.st.facts, (), {})

            def spec(S, o):
                if o.kind == "throw" or holds(s2.facts, S.I) is not True:
                    return None
                p, q = pvals(S, L, s, cls, s2), pvals(S, L, s, cls, s2, OTHER)
                return [("value", S.I(o.val), guard(fn)(S.I, p, q))]
            contract(L, R, fkey(f), f, spec, s2, (OTHER,), n=150, mode=("pos", "gen", "mix"))


def columns(R, L):
    fs = L.free(NS + "computeSumLogDiagR")
    if not fs:
        R.lost("computeSumLogDiagR")
    for f in fs:
        a = L.cargs(f, "x")

        def spec(S, o):
            if o.kind == "throw":
                return None
            r = S.I(mk("deref", a[0][0][1])) if not isinstance(a[0], T) else S.I(a[0])
            b, e = S.I(a[1]), S.I(a[2])
            if not isinstance(r, M):
                raise Open("matrix")
            want = 0
            for i in range(int(b), int(e) + 1):
                if i >= r.r:
                    raise Bottom("row")
                x = abs(r.e[i * r.c + i])
                if x > 2.0 ** -52:
                    want += math.log2(x)
            return [("sum of the logarithms of the diagonal", S.I(o.val), want)]
        contract(L, R, fkey(f) + f["params"][0]["t"], f, spec, None, a, n=200, mode=("mix", "gen"))
