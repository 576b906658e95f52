"""Error terms of the examples: what they register, publish and differentiate.

The summaries of a class deriving from ErrorTermFs<N> are evaluated on
representative models in which the values of its design variables carry exact
first-order parts (dual numbers); a residual component then carries its own
derivative, which is compared with the Jacobian the class contributes.
"""
import math
import re
from fractions import Fraction

from sa.project import load, ExtractError
from sa.lib import *
from sa.ev import Interp, isn, M, Tok, Open, Bottom, Outside

GROUPS = ("2dlrf", "car", "time_delay", "egomotion_sensors")
EXPR = re.compile(r"(?:const )?aslam::backend::(Euclidean|Rotation|Transformation|Scalar|Vector|GenericScalar)Expression(?:<(.*)>)?$")
EDIM = {"Euclidean": 3, "Rotation": 3, "Transformation": 6, "Scalar": 1, "GenericScalar": 1}
PVAL = ("toValue", "toEuclidean", "toScalar", "evaluate", "value")
BASEFN = ("setInvR", "setSqrtInvR", "setError", "setDesignVariables", "setDesignVariablesIterator", "setMEstimatorPolicy")


class D(float):
    """value with first-order parts"""
    __slots__ = ("g",)

    def __new__(cls, v, g=None):
        x = float.__new__(cls, v)
        x.g = g or {}
        return x


def gr(x):
    return x.g if isinstance(x, D) else {}


def lin(v, *parts):
    g = {}
    for c, x in parts:
        for k, d in gr(x).items():
            g[k] = g.get(k, 0.0) + float(c) * d
    return D(v, g)


def _b(f, parts):
    def op(a, b):
        if not isn(b):
            return NotImplemented
        v = f(float(a), float(b))
        return lin(v, *parts(float(a), float(b), v, a, b))

    def rop(b, a):
        if not isn(a):
            return NotImplemented
        v = f(float(a), float(b))
        return lin(v, *parts(float(a), float(b), v, a, b))
    return op, rop


D.__add__, D.__radd__ = _b(lambda a, b: a + b, lambda a, b, v, x, y: ((1, x), (1, y)))
D.__sub__, D.__rsub__ = _b(lambda a, b: a - b, lambda a, b, v, x, y: ((1, x), (-1, y)))
D.__mul__, D.__rmul__ = _b(lambda a, b: a * b, lambda a, b, v, x, y: ((b, x), (a, y)))
D.__truediv__, D.__rtruediv__ = _b(lambda a, b: a / b, lambda a, b, v, x, y: ((1 / b, x), (-v / b, y)))
D.__neg__ = lambda a: lin(-float(a), (-1, a))
D.__abs__ = lambda a: a if float(a) >= 0 else -a


def sgn(x):
    return math.copysign(1.0, x)


ONE = {
    "sqrt": (math.sqrt, lambda x, v: 0.5 / v), "sin": (math.sin, lambda x, v: math.cos(x)), "cos": (math.cos, lambda x, v: -math.sin(x)),
    "tan": (math.tan, lambda x, v: 1 + v * v), "exp": (math.exp, lambda x, v: v), "log": (math.log, lambda x, v: 1 / x),
    "atan": (math.atan, lambda x, v: 1 / (1 + x * x)), "asin": (math.asin, lambda x, v: 1 / math.sqrt(1 - x * x)),
    "acos": (math.acos, lambda x, v: -1 / math.sqrt(1 - x * x)), "abs": (abs, lambda x, v: sgn(x)), "fabs": (abs, lambda x, v: sgn(x)),
    "angleMod": (lambda x: x - 2 * math.pi * math.floor((x + math.pi) / (2 * math.pi)), lambda x, v: 1.0),
}


class DI(Interp):
    """interpretation on dual numbers; sm::kinematics by contract"""
    poses = ()

    def fn(self, n, v):
        if n in ONE and len(v) == 1 and isn(v[0]):
            x = v[0]
            f, d = ONE[n]
            try:
                r = f(float(x))
                return lin(r, (d(float(x), r), x)) if gr(x) else r
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Bottom(n)
        if n in ("atan2", "hypot", "copysign", "pow") and len(v) == 2 and all(isn(x) for x in v):
            a, b = float(v[0]), float(v[1])
            if n == "atan2":
                q = a * a + b * b
                if q == 0:
                    raise Bottom(n)
                return lin(math.atan2(a, b), (b / q, v[0]), (-a / q, v[1]))
            if n == "hypot":
                q = math.hypot(a, b)
                if q == 0:
                    raise Bottom(n)
                return lin(q, (a / q, v[0]), (b / q, v[1]))
            if n == "copysign":
                return lin(math.copysign(a, b), (sgn(a) * sgn(b), v[0]))
            if not gr(v[1]) and (a > 0 or b == int(b)):
                try:
                    return lin(a ** b, (b * a ** (b - 1), v[0]))
                except (ZeroDivisionError, OverflowError):
                    raise Bottom(n)
            raise Open("power")
        if n == "square" and len(v) == 1 and isn(v[0]):
            return v[0] * v[0]
        if n in ("signbit",) and isn(v[0]):
            return int(v[0] < 0)
        if n in ("norm", "stableNorm") and v and isinstance(v[0], M):
            s = 0
            for x in v[0].e:
                s = s + x * x
            return self.fn("sqrt", [s])
        if n == "squaredNorm" and v and isinstance(v[0], M):
            s = 0
            for x in v[0].e:
                s = s + x * x
            return s
        if n == "crossMx" and v and isinstance(v[-1], M) and len(v[-1].e) == 3:
            x, y, z = v[-1].e
            return M(3, 3, [0, -z, y, z, 0, -x, -y, x, 0])
        if n == "rotationMatrixToParameters" and isinstance(v[-1], M):
            for p in self.poses:
                if [float(x) for x in p.C] == [float(x) for x in v[-1].e]:
                    return M(3, 1, p.ypr)
            return None
        if n == "parametersToSMatrix" and isinstance(v[-1], M):
            for p in self.poses:
                if [float(x) for x in p.ypr] == [float(x) for x in v[-1].e]:
                    return M(3, 3, p.S)
            return None
        return Interp.fn(self, n, v)

    def asnum(self, v, *k):
        if isinstance(v, Tok):
            raise Open("unresolved " + str(v.k[:2])[:60])
        return Interp.asnum(self, v, *k)


class Pose:
    """contract of a transformation expression: with the minimal perturbation
    (t, theta) the translation moves by t + [translation]x theta and the
    parameters of the rotation by S(parameters)^-1 theta"""

    def __init__(self, m, I, i):
        f = [float(I.draw("f", "pose", m, k)) for k in range(24)]
        S = [f[3 + k] / 7 + (3.0 if k % 4 == 0 else 0.0) for k in range(9)]
        Si = I.inv(M(3, 3, [Fraction(x).limit_denominator(10 ** 6) for x in S]))
        self.S = [Fraction(x).limit_denominator(10 ** 6) for x in S]
        t = [x + 0.37 for x in f[:3]]
        X = [0, -t[2], t[1], t[2], 0, -t[0], -t[1], t[0], 0]
        self.t = [D(t[r], {**{(m, r): 1.0}, **{(m, 3 + c): X[3 * r + c] for c in range(3)}}) for r in range(3)]
        self.ypr = [D(0.2 + x / 9, {(m, 3 + c): float(Si.e[3 * r + c]) for c in range(3)}) for r, x in enumerate(f[12:15])]
        self.C = [D(x / 5 + 0.01 * k, {("rotation matrix of " + m, k): 1.0}) for k, x in enumerate(f[15:24])]
        T = []
        for r in range(3):
            T += self.C[3 * r:3 * r + 3] + [self.t[r]]
        self.T = M(4, 4, T + [0, 0, 0, 1])


def peel(t):
    """members of the derived class behind calls of base-class functions"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x.op, a)
            if r.op == "fld" and not str(r.a[1]).startswith("<base"):
                b = r.a[0]
                while b.op in ("mut", "upd"):
                    if b.op == "mut" and b.a[0] in BASEFN:
                        b = b.a[1]
                    elif b.op == "upd" and isinstance(b.a[1], tuple) and len(b.a[1]) == 1 and isinstance(b.a[1][0], str):
                        if b.a[1][0] == r.a[1]:
                            b = b.a[2]
                            r = b
                            break
                        b = b.a[0]
                    else:
                        break
                else:
                    r = mk("fld", b, r.a[1])
            memo[x] = r
        return r
    return go(t)


class Source:
    def __init__(self, name, kind, dim, ptr):
        self.name, self.kind, self.dim, self.ptr = name, kind, dim, ptr


class ErrCls:
    def __init__(self, L, group, cls, N):
        self.L, self.group, self.cls, self.N = L, group, cls, N
        self.src = {}
        self.short = cls.split("::")[-1]
        for n, f, o in L.m.all_fields(cls):
            t = f["t"]
            TYPES[self.member(n)] = t
            e = EXPR.match(t.rstrip(" &"))
            if e:
                k = e.group(1)
                d = EDIM.get(k)
                if k == "Vector":
                    d = int(e.group(2).split(",")[0])
                self.src[n] = Source(n, k, d, False)
            elif t.rstrip().endswith("*") or "shared_ptr<" in t:
                b = re.sub(r"^const |\s*\*$", "", t.strip())
                b = re.sub(r"^(?:boost|std)::shared_ptr<(.*)>$", r"\1", b).strip()
                if "DesignVariable" in b or any("DesignVariable" in x for x in L.m.bases(b)):
                    d = re.search(r"VectorDesignVariable<(\d+)>", b)
                    self.src[n] = Source(n, "Vector*", int(d.group(1)) if d else None, True)

    def named(self, n, npar=None):
        r = [f for f in self.L.m.methods(self.cls) if f["n"] == n and f.get("body") is not None and (npar is None or len(f["params"]) == npar)]
        return r[0] if r else None

    def ctors(self):
        return [f for f in self.L.m.methods(self.cls) if "ctor" in f["kind"] and f.get("body") is not None and
                not (len(f["params"]) == 1 and self.cls in f["params"][0]["t"])]

    def copies(self):
        return [f for f in self.L.m.methods(self.cls) if f.get("body") is not None and len(f["params"]) == 1 and
                self.cls in f["params"][0]["t"] and ("ctor" in f["kind"] or f["n"] == "operator=")]

    def member(self, m):
        return mk("fld", mk("deref", sym("this")), m)

    def leaf_terms(self, s):
        """terms through which the value of a source is read"""
        b = self.member(s.name)
        if s.ptr:
            return [mk("fld", mk("deref", b), "_value")] + [call(x, mk("deref", b)) for x in ("getValue",) + PVAL]
        if s.kind == "Transformation":
            return [call("toTransformationMatrix", b)]
        return [call(x, b) for x in PVAL]

    def values(self, I):
        """dual values of the sources"""
        giv, poses = {}, []
        for s in self.src.values():
            if s.kind == "Transformation":
                p = Pose(s.name, I, s)
                poses.append(p)
                v = p.T
            elif s.dim is None:
                continue
            elif s.kind in ("Scalar", "GenericScalar"):
                v = D(I.draw("f", "val", s.name), {(s.name, 0): 1.0})
            elif s.kind == "Rotation":
                continue
            else:
                v = M(s.dim, 1, [D(I.draw("f", "val", s.name, i), {(s.name, i): 1.0}) for i in range(s.dim)])
            for t in self.leaf_terms(s):
                giv[t] = v
        return giv, poses

    def model(self, seed, mode):
        I = DI(seed, None, mode)
        g, p = self.values(I)
        I.given = g
        I.poses = p
        return I

    def outs(self, f):
        return [o for o in self.L.run(f) if o.kind == "ret"]

    def uses(self, t):
        """sources the term reads"""
        t = peel(t)
        ls = {s.name: self.member(s.name) for s in self.src.values()}
        return {n for n, l in ls.items() if contains(t, lambda x: x is l)}

    # -------------------------------------------------------------- events
    def residual(self, o):
        return [e for e in flat(o.trace) if e.name == "setError"]

    def contributions(self, o):
        """[(source name | None, jacobian term | None, event)]"""
        r = []
        for e in flat(o.trace):
            if e.name == "add" and "JacobianContainer" in (e.q or "") and len(e.args) >= 1:
                r.append((self.source_of(e.args[0]), peel(e.args[1]) if len(e.args) > 1 else None, e))
            elif e.name == "evaluateJacobians" and "Expression" in (e.q or ""):
                r.append((self.source_at(e.recv), peel(e.args[1]) if len(e.args) > 1 else None, e))
        return r

    def source_of(self, t):
        t = peel(t)
        for n in self.src:
            if t is self.member(n):
                return n
        return None

    def source_at(self, loc):
        """receiver of an expression call"""
        if isinstance(loc, T) and loc.op == "addr":
            loc = loc.a
        if isinstance(loc, tuple) and len(loc) == 2 and loc[0] == ("o", "this") or \
                (isinstance(loc, tuple) and len(loc) == 2 and loc[0] == ("o", sym("this"))):
            p = loc[1]
            if len(p) >= 1 and str(p[0]) in self.src:
                return str(p[0])
        return None


def flat(tr):
    r = []
    for e in tr:
        if isinstance(e, LoopEv):
            r.append(Ev("<loop>", None, None, (), e.line, ""))
            for a in e.alts:
                r += flat(a[2])
        else:
            r.append(e)
    return r


def classes(R):
    out = []
    for g in GROUPS:
        try:
            m = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
            continue
        L = Lib(m, R)
        for c in sorted(m.rec):
            if not m.rec[c].get("inrepo"):
                continue
            for b in m.bases(c):
                x = re.fullmatch(r"aslam::backend::ErrorTermFs<(\d+)>", b)
                if x:
                    out.append(ErrCls(L, g, c, int(x.group(1))))
    if not out:
        R.lost("classes deriving from ErrorTermFs")
    return out
