"""Specification tables: the parameters of each class of the statistics, function and geometry
library, how they are set, read and restricted, and what is derived from them."""
import math
import re
from fractions import Fraction

from sa.ev import M, Bottom, isn
from sa.lib import *

NS = "aslam::calibration::"


def vec(x):
    return list(x.e) if isinstance(x, M) else [x]


def less(a, b):
    return all(x < y for x, y in zip(vec(a), vec(b)))


def sympd(I, m):
    n = m.r
    return all(m.e[i * n + j] == m.e[j * n + i] for i in range(n) for j in range(n)) and I.posdef(m)


def lg(x):
    if x <= 0 and float(x) == int(x):
        raise Bottom("pole")
    return math.lgamma(float(x))


def log(x):
    if x <= 0:
        raise Bottom("log")
    return math.log(float(x))


def inv(I, m):
    return I.inv(m)


class Subject:
    """params: [(name, getter, setter or None)]; valid(I, p) on a dict of parameter values;
    derived: getter name -> f(I, p); joint: setters taking several parameters [(method, [names])]"""

    def __init__(self, key, cls, params, valid=None, derived=(), joint=(), integer=False, setdep=(), note=""):
        self.key, self.cls, self.params = key, cls, params
        self.valid = valid
        self.derived = dict(derived)
        self.joint = list(joint)
        self.setdep = dict(setdep)
        self.names = [p[0] for p in params]

    def classes(self, L):
        return L.classes(self.cls)

    def ctors(self, L, cls):
        """constructors taking the parameters in order"""
        out = []
        for f in L.m.methods(cls):
            if f["kind"] == "ctor" and f.get("body") is not None and len(f["params"]) == len(self.params):
                if len(self.params) == 1 and "tuple" in f["params"][0]["t"]:
                    continue
                out.append(f)
        return out

    def tuple_ctors(self, L, cls):
        return [f for f in L.m.methods(cls) if f["kind"] == "ctor" and f.get("body") is not None and len(f["params"]) == 1
                and "tuple<" in f["params"][0]["t"]]


def argval(I, f, i, a):
    """value of argument i passed as a (term or location)"""
    return I(a if isinstance(a, T) else mk("deref", a[0][1]))


def uni_area(I, p, k):
    r = 1
    for x, y in zip(vec(p["min"]), vec(p["max"])):
        r *= y - x + k
    return r


def diagonal(d):
    n = len(d)
    return M(n, n, [d[i] if i == j else 0 for i in range(n) for j in range(n)])


def cells(I, p, k):
    out = []
    for a, b, r in zip(vec(p["min"]), vec(p["max"]), vec(p["res"])):
        if k:
            q = abs(int(b - a)) // abs(int(r)) + 1
        else:
            q = math.ceil(Fraction(b - a) / Fraction(r))
        out.append(q)
    return out


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def grid_valid(I, p):
    mn, mx, rs = vec(p["min"]), vec(p["max"]), vec(p["res"])
    return all(r > 0 for r in rs) and all(a < b for a, b in zip(mn, mx)) and all(r <= b - a for a, b, r in zip(mn, mx, rs))


def grid_derived(k):
    return {"getNumCells": lambda I, p: M(len(vec(p["min"])), 1, cells(I, p, k)),
            "getNumCellsTot": lambda I, p: prod(cells(I, p, k)),
            "getMinimum": lambda I, p: p["min"], "getMaximum": lambda I, p: p["max"], "getResolution": lambda I, p: p["res"]}


GRIDP = [("min", "getMinimum", None), ("max", "getMaximum", None), ("res", "getResolution", None)]
UNIP = [("min", "getMinSupport", "setMinSupport"), ("max", "getMaxSupport", "setMaxSupport")]


def uniform(key, cls, k):
    return Subject(key, cls, UNIP, lambda I, p: less(p["min"], p["max"]),
                   {"getSupportArea": lambda I, p: uni_area(I, p, k)}, [("setSupport", ["min", "max"])])


SUBJECTS = [
    Subject("NormalDistribution<1>", NS + r"NormalDistribution<1>",
            [("mean", "getMean", "setMean"), ("variance", "getVariance", "setVariance")],
            lambda I, p: p["variance"] > 0,
            {"getPrecision": lambda I, p: 1 / float(p["variance"]), "getStandardDeviation": lambda I, p: math.sqrt(p["variance"]),
             "getNormalizer": lambda I, p: 0.5 * log(2 * math.pi * float(p["variance"]))}),
    Subject("NormalDistribution<M>", NS + r"NormalDistribution<(?!1>).*>",
            [("mean", "getMean", "setMean"), ("covariance", "getCovariance", "setCovariance")],
            lambda I, p: sympd(I, p["covariance"]),
            {"getPrecision": lambda I, p: I.inv(p["covariance"]), "getDeterminant": lambda I, p: I.det(p["covariance"]),
             "getNormalizer": lambda I, p: 0.5 * p["covariance"].r * math.log(2 * math.pi) + 0.5 * log(I.det(p["covariance"])),
             "getTransformation": lambda I, p: ("llt", p["covariance"])}),
    Subject("GammaDistribution", NS + r"GammaDistribution<.*>",
            [("shape", "getShape", "setShape"), ("invScale", "getInvScale", "setInvScale")],
            lambda I, p: p["shape"] > 0 and p["invScale"] > 0,
            {"getNormalizer": lambda I, p: lg(p["shape"]) - float(p["shape"]) * log(p["invScale"])}),
    Subject("ChiSquareDistribution", NS + r"ChiSquareDistribution", [("degrees", "getDegrees", "setDegrees")],
            lambda I, p: p["degrees"] > 0,
            {"getShape": lambda I, p: Fraction(1, 2) * p["degrees"], "getInvScale": lambda I, p: Fraction(1, 2),
             "getNormalizer": lambda I, p: lg(p["degrees"] / 2) - float(p["degrees"]) / 2 * math.log(0.5)}),
    uniform("UniformDistribution<real>", NS + r"UniformDistribution<(double|float), \d+>", 0),
    uniform("UniformDistribution<int>", NS + r"UniformDistribution<int, \d+>", 1),
    Subject("LogGammaFunction", NS + r"LogGammaFunction<(double|float)>", [("dim", "getDim", "setDim")]),
    Subject("IncompleteGammaPFunction", NS + r"IncompleteGammaPFunction", [("alpha", "getAlpha", "setAlpha")]),
    Subject("IncompleteGammaQFunction", NS + r"IncompleteGammaQFunction", [("alpha", "getAlpha", "setAlpha")]),
    Subject("Grid<real>", NS + r"Grid<(double|float), .*>", GRIDP, grid_valid, grid_derived(0)),
    Subject("Grid<int>", NS + r"Grid<int, .*>", GRIDP, grid_valid, grid_derived(1)),
    Subject("Histogram", NS + r"Histogram<double, .*>", GRIDP, grid_valid, grid_derived(0)),
]


def subjects(L, R):
    """[(subject, class)], lost anchors reported"""
    out = []
    for s in SUBJECTS:
        cs = s.classes(L)
        cs = [c for c in cs if L.m.rec[c].get("fields") is not None]
        if not cs:
            R.lost("class " + s.key)
        out += [(s, c) for c in cs]
    return out


def pvals(S, L, subj, cls, st, this=THIS):
    """current parameter values as the getters report them in state st"""
    p = {}
    for name, getter, _ in subj.params:
        f = L.method(cls, getter, 0)
        p[name] = norm1(S.get(f, st, this=this), f)
    return p


def norm1(v, f=None):
    return v


def given_for(pleaf, dim, k, scalar, ints):
    F = Fraction
    if k:
        one = [([0], [3], [1]), ([-2], [2], [1]), ([-1], [4], [2]), ([0], [6], [3])]
        two = [([0, -1], [2, 1], [1, 1]), ([-2, 0], [0, 3], [1, 2]), ([0, 0], [1, 1], [1, 1])]
    else:
        one = [([F(0)], [F(3)], [F(1)]), ([F(-1)], [F(1)], [F(1, 2)]), ([F(0)], [F(5, 2)], [F(1)]), ([F(-7, 2)], [F(-1)], [F(5, 4)])]
        two = [([F(0), F(-1)], [F(2), F(1)], [F(1), F(1)]), ([F(0), F(0)], [F(1), F(3)], [F(1), F(1)]),
               ([F(-1), F(0)], [F(1), F(3, 2)], [F(1), F(1, 2)]), ([F(1), F(-3)], [F(7, 2), F(0)], [F(1), F(2)])]
    three = [(a + [a[0]], b + [b[0] + r[0] * n], r + [r[0]]) for (a, b, r), n in zip(two, (1, 2, 0, 3))]
    tab = one if dim == 1 else two if dim == 2 else three

    def given(i):
        p = tab[i % len(tab)]
        return {l: v[0] if scalar else M(len(v), 1, v) for l, v in zip(pleaf, p)}
    return given


def geometry(L, s, cls, ca):
    """representative minimum/maximum/resolution triples for the arguments ca of a grid constructor"""
    gi = L.methods(cls, "getIndex", 1)
    if s.names != ["min", "max", "res"] or not gi:
        return None
    dim = int(re.search(r"Matrix<\w+, (\d+)", gi[0]["params"][0]["t"]).group(1))
    ct = s.ctors(L, cls)[0]
    return given_for([x if isinstance(x, T) else mk("deref", x[0][1]) for x in ca], dim, s.key == "Grid<int>",
                     "Matrix" not in ct["params"][0]["t"], False)


def every_other(g):
    """given(i) on even models, free values on odd ones"""
    return None if g is None else lambda i: g(i // 2) if i % 2 == 0 else None
