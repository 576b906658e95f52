"""Canonical forms of value numbers.

Scalars become Laurent polynomials over atoms (exponents may be halves),
fixed-size matrices become lists of such polynomials.  Two value numbers are
equal iff their canonical forms are identical.  No solver, no sampling.
"""
import math
from fractions import Fraction

from .terms import *
from .model import dims
from .engine import TYPES

# operators that stand for "not resolved by the analysis"
OPEN = {"after", "phi", "ret", "out", "refof", "unwritten", "commalist", "deref_unknown", "sized"}


class Poly(dict):
    def key(self):
        return ("P",) + tuple(sorted(((m, rnd(c)) for m, c in self.items()), key=str))


def rnd(c):
    if c.denominator == 1 and abs(c) < 10 ** 12:
        return c
    f = float(c)
    return Fraction("%.11g" % f) if f == f and abs(f) != float("inf") else c


def const(c):
    p = Poly()
    if c:
        p[()] = Fraction(c)
    return p


def atom(k, e=1):
    return Poly({((k, Fraction(e)),): Fraction(1)})


def padd(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v and abs(v) > 1e-13 * max(abs(c), abs(r.get(m, 0))):
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul_(a, b):
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items(), key=str))


def pmul(a, b):
    r = Poly()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul_(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def scale(a, c):
    return Poly({m: v * c for m, v in a.items()}) if c else Poly()


def isconst(p):
    return len(p) == 0 or (len(p) == 1 and () in p)


def constval(p):
    return p.get((), Fraction(0))


def pinv(p):
    if not p:
        return atom(("inv0",))
    if len(p) == 1:
        (m, c), = p.items()
        return Poly({tuple((k, -e) for k, e in m): 1 / c})
    # pull out the leading coefficient for canonicity
    lead = sorted(p.items(), key=lambda x: str(x[0]))[0][1]
    q = scale(p, 1 / lead)
    return scale(atom(q.key(), -1), 1 / lead)


def ppow(p, e):
    e = Fraction(e)
    if e.denominator == 1 and 0 <= e <= 12:
        r = const(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if e.denominator == 1 and -12 <= e < 0:
        return ppow(pinv(p), -e)
    return None


def psqrt(p):
    if isconst(p):
        c = constval(p)
        if c >= 0:
            return const(Fraction(repr(math.sqrt(c)))) if c else const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e in (1, -1) or e % 4 == 0 for _, e in m):
            r = Poly({tuple((k, e / 2) for k, e in m): Fraction(1)})
            s = math.sqrt(c)
            return scale(r, Fraction(int(s)) if s == int(s) else Fraction(repr(s)))
    return atom(("sqrt", p.key()))


class Mat:
    __slots__ = ("r", "c", "e", "arr")

    def __init__(self, r, c, e, arr=False):
        self.r, self.c, self.e, self.arr = r, c, e, arr

    def key(self):
        return ("M", self.r, self.c, tuple(x.key() for x in self.e))

    def at(self, i, j=None):
        if j is None:
            return self.e[i]
        return self.e[i * self.c + j]


def tdims(t):
    ty = TYPES.get(t)
    return dims(ty) if ty else None


class NF:
    """normaliser; `asg` fixes the truth of conditions (dict key -> bool)"""

    def __init__(self, decide=None):
        self.memo = {}
        self.decide = decide
        self.open = set()

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r

    def key(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.key(x) for x in t)
            return t
        if t.op in ("lt", "le", "eq", "not", "and", "or", "has", "forall"):
            return self.bkey(t)
        if t.op in ("str",):
            return t.a[0]
        if t.op in ("addr", "iter", "null", "empty", "lam", "fref", "rec", "upd", "new", "ctor", "zero"):
            return self.struct(t)
        return self(t).key()

    def struct(self, t):
        if t.op in OPEN:
            self.open.add(t.op)
        return (t.op,) + tuple(self.key(x) for x in t.a)

    def bkey(self, t):
        if t.op == "num":
            return ("B", t.a[0] != 0)
        if t.op == "not":
            k = self.bkey(t.a[0])
            if k[0] == "not":
                return k[1]
            if k[0] == "cmp":
                return ("cmp", {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[k[1]], k[2])
            return ("not", k)
        if t.op in ("and", "or"):
            xs = sorted({self.bkey(x) for x in flat(t, t.op)}, key=str)
            return (t.op,) + tuple(xs)
        if t.op in ("lt", "le", "eq"):
            a, b = self(t.a[0]), self(t.a[1])
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = padd(a, b, -1)
                op = {"lt": "<", "le": "<=", "eq": "=="}[t.op]
                if d:
                    lead = sorted(((m, c) for m, c in d.items() if m), key=lambda x: str(x[0]))
                    if lead and lead[0][1] < 0:
                        d = scale(d, Fraction(-1))
                        op = {"<": ">", "<=": ">=", "==": "=="}[op]
                    if lead:
                        d = scale(d, 1 / abs(lead[0][1]))
                return ("cmp", op, d.key())
            return (t.op, a.key(), b.key())
        return self.struct(t)

    def _nf(self, t):
        o, a = t.op, t.a
        if o == "num":
            return const(a[0])
        if o == "add":
            return self.fold2([self(x) for x in a], padd)
        if o == "neg":
            x = self(a[0])
            return self.lift1(x, lambda p: scale(p, Fraction(-1)))
        if o == "mul":
            return self.fold2([self(x) for x in a], pmul, bcast=True)
        if o == "amul":
            return self.fold2([self(x) for x in a], pmul)
        if o == "mmul":
            return self.mmul([self(x) for x in a])
        if o == "div":
            x, y = self(a[0]), self(a[1])
            if isinstance(y, Poly):
                i = pinv(y)
                return self.lift1(x, lambda p: pmul(p, i))
            if isinstance(x, Mat) and isinstance(y, Mat):
                return Mat(x.r, x.c, [pmul(p, pinv(q)) for p, q in zip(x.e, y.e)], True)
        if o in ("ucast",) and len(a) == 1:
            # value preserved for non-negative values
            return self(a[0])
        if o == "usub":
            return padd(self(a[0]), self(a[1]), -1) if isinstance(self(a[0]), Poly) else atom(self.struct(t))
        if o == "toint":
            x = self(a[0])
            if isinstance(x, Poly):
                if isconst(x):
                    return const(int(constval(x)))
                return atom(("toint", x.key()))
        if o == "mat":
            es = [self(x) for x in a[2]]
            if all(isinstance(x, Poly) for x in es):
                return Mat(a[0], a[1], es)
        if o == "arr":
            x = self(a[0])
            return x
        if o == "fill":
            d = tdims(t)
            return atom(self.struct(t))
        if o == "ite":
            if self.decide is not None:
                v = self.decide(a[0])
                if v is not None:
                    return self(a[1] if v else a[2])
            x, y = self(a[1]), self(a[2])
            if x.key() == y.key():
                return x
            return atom(("ite", self.bkey(a[0]), x.key(), y.key()))
        if o == "idx":
            c = a[0]
            if len(a) == 2 or len(a) == 3:
                if all(isinstance(x, T) and isnum(x) for x in a[1:]):
                    m = self(c)
                    if isinstance(m, Mat):
                        ii = [int(x.a[0]) for x in a[1:]]
                        k = ii[0] if len(ii) == 1 else ii[0] * m.c + ii[1]
                        if 0 <= k < len(m.e) and all(x >= 0 for x in ii):
                            return m.e[k]
                if len(a) >= 2 and isinstance(a[1], T) and a[1].op == "str":
                    m = self(c)
                    if isinstance(m, Mat):
                        p = self.proxy(m, a[1].a[0], a[2:])
                        if p is not None:
                            return p
            return self.leaf(t)
        if o == "upd":
            if t.a[1] and isinstance(t.a[1][0], T):
                m = self(a[0])
                v = self(a[2])
                if isinstance(m, Mat) and all(isnum(x) for x in a[1] if isinstance(x, T) and x.op != "str") and isinstance(v, Poly):
                    if all(isinstance(x, T) and isnum(x) for x in a[1]):
                        ii = [int(x.a[0]) for x in a[1]]
                        k = ii[0] if len(ii) == 1 else ii[0] * m.c + ii[1]
                        if 0 <= k < len(m.e):
                            e = list(m.e)
                            e[k] = v
                            return Mat(m.r, m.c, e)
            return atom(self.struct(t))
        if o == "call":
            return self.callnf(t)
        if o == "fold":
            return self.foldnf(t)
        if o == "iv":
            return atom(("iv", t.a[0], self.key(t.a[1]), self.key(t.a[2])))
        return self.leaf(t)

    def leaf(self, t):
        d = tdims(t)
        if d and d[0] > 0 and d[1] > 0 and d[0] * d[1] <= 36:
            k = self.struct(t)
            return Mat(d[0], d[1], [atom(("el", k, i, j)) for i in range(d[0]) for j in range(d[1])])
        return atom(self.struct(t))

    def fold2(self, xs, f, bcast=False):
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, Poly) and isinstance(y, Poly):
                r = f(r, y)
            elif isinstance(r, Mat) and isinstance(y, Mat):
                if (r.r, r.c) != (y.r, y.c):
                    if bcast:
                        r = self.mmul([r, y])
                        continue
                    r = atom(("shape", r.key(), y.key()))
                    self.open.add("shape")
                else:
                    r = Mat(r.r, r.c, [f(p, q) for p, q in zip(r.e, y.e)], r.arr or y.arr)
            else:
                m, p = (r, y) if isinstance(r, Mat) else (y, r)
                sw = r is p
                if isconst(p) or True:
                    # scalar with matrix: scaling, or array + scalar
                    r = Mat(m.r, m.c, [f(p, q) if sw else f(q, p) for q in m.e], m.arr)
        return r

    def lift1(self, x, f):
        return f(x) if isinstance(x, Poly) else Mat(x.r, x.c, [f(p) for p in x.e], x.arr)

    def mmul(self, xs):
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, Mat) and isinstance(y, Mat) and r.c == y.r:
                e = []
                for i in range(r.r):
                    for j in range(y.c):
                        s = Poly()
                        for k in range(r.c):
                            s = padd(s, pmul(r.at(i, k), y.at(k, j)))
                        e.append(s)
                r = Mat(r.r, y.c, e)
            elif isinstance(r, Poly) and isinstance(y, Mat):
                r = Mat(y.r, y.c, [pmul(r, p) for p in y.e])
            elif isinstance(y, Poly) and isinstance(r, Mat):
                r = Mat(r.r, r.c, [pmul(y, p) for p in r.e])
            else:
                r = atom(("mmul", r.key(), y.key()))
        return r

    def proxy(self, m, sel, args):
        name = sel.split("<")[0]
        targ = sel[len(name) + 1:-1].split(",") if "<" in sel else []
        try:
            ar = [int(x.a[0]) for x in args if isnum(x)]
        except Exception:
            return None
        if len(ar) != len(args):
            return None
        v = m.r if m.c == 1 else m.c if m.r == 1 else 0
        n = int(targ[0]) if targ and targ[0].isdigit() else None
        if name == "head" and v:
            n = n if n is not None else ar[0]
            return self.vec(m, range(0, n))
        if name == "tail" and v:
            n = n if n is not None else ar[0]
            return self.vec(m, range(v - n, v))
        if name == "segment" and v:
            if n is not None:
                return self.vec(m, range(ar[0], ar[0] + n))
            return self.vec(m, range(ar[0], ar[0] + ar[1]))
        if name == "col":
            return Mat(m.r, 1, [m.at(i, ar[0]) for i in range(m.r)])
        if name == "row":
            return Mat(1, m.c, [m.at(ar[0], j) for j in range(m.c)])
        if name == "diagonal":
            k = min(m.r, m.c)
            return Mat(k, 1, [m.at(i, i) for i in range(k)])
        blk = None
        if name == "block":
            if len(targ) >= 2 and targ[0].isdigit() and len(ar) >= 2:
                blk = (ar[0], ar[1], int(targ[0]), int(targ[1]))
            elif len(ar) == 4:
                blk = tuple(ar)
        if name == "topLeftCorner":
            if len(targ) >= 2 and targ[0].isdigit():
                blk = (0, 0, int(targ[0]), int(targ[1]))
            elif len(ar) == 2:
                blk = (0, 0, ar[0], ar[1])
        if name == "topRightCorner":
            r, c = (int(targ[0]), int(targ[1])) if len(targ) >= 2 and targ[0].isdigit() else (ar + [0, 0])[:2]
            blk = (0, m.c - c, r, c)
        if blk and blk[0] + blk[2] <= m.r and blk[1] + blk[3] <= m.c:
            return Mat(blk[2], blk[3], [m.at(blk[0] + i, blk[1] + j) for i in range(blk[2]) for j in range(blk[3])])
        return None

    def vec(self, m, rg):
        rg = list(rg)
        if any(not 0 <= i < len(m.e) for i in rg):
            return None
        return Mat(len(rg), 1, [m.e[i] for i in rg]) if m.c == 1 else Mat(1, len(rg), [m.e[i] for i in rg])

    def callnf(self, t):
        n = t.a[0]
        xs = t.a[1:]
        if n in ("sqrt", "exp", "log", "sin", "cos", "tan", "abs", "fabs", "pow", "square", "log2", "erf", "floor", "ceil",
                 "atan2", "asin", "acos", "atan", "round", "sqrtf"):
            ps = [self(x) for x in xs]
            if all(isinstance(p, Poly) for p in ps):
                return self.scalar_fn(n, ps)
            if len(ps) == 1 and isinstance(ps[0], Mat):
                return Mat(ps[0].r, ps[0].c, [self.scalar_fn(n, [p]) for p in ps[0].e], True)
        if xs and n in ("transpose", "determinant", "inverse", "trace", "sum", "squaredNorm", "norm", "cross", "dot", "adjoint",
                        "prod", "value", "asDiagonal", "matrix", "array", "cast", "minCoeff", "maxCoeff", "coeff", "lazyProduct"):
            m = self(xs[0])
            if isinstance(m, Mat):
                r = self.matfn(n, m, [self(x) if isinstance(x, T) else x for x in xs[1:]])
                if r is not None:
                    return r
            elif n in ("value", "trace", "determinant", "sum") and isinstance(m, Poly) and TYPES.get(xs[0]) is None and n == "value":
                return m
        if n == "size" and len(xs) == 1:
            d = tdims(xs[0])
            if d and min(d) > 0:
                return const(d[0] * d[1])
        return self.leaf(t)

    def scalar_fn(self, n, ps):
        p = ps[0]
        if n in ("fabs",):
            n = "abs"
        if n == "sqrt":
            return psqrt(p)
        if n == "square":
            return pmul(p, p)
        if n == "pow" and isconst(ps[1]):
            e = constval(ps[1])
            if e == Fraction(1, 2):
                return psqrt(p)
            if e == Fraction(-1, 2):
                return pinv(psqrt(p))
            r = ppow(p, e)
            if r is not None:
                return r
        if isconst(p) and len(ps) == 1:
            c = constval(p)
            try:
                v = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "abs": abs,
                     "log2": math.log2, "floor": math.floor, "ceil": math.ceil, "erf": math.erf}[n](c)
                return const(Fraction(repr(float(v))) if not isinstance(v, (int, Fraction)) else v)
            except Exception:
                pass
        if n in ("log", "log2") and len(p) == 1:
            (m, c), = p.items()
            if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
                r = const(Fraction(repr(getattr(math, n)(c)))) if c != 1 else const(0)
                for k, e in m:
                    r = padd(r, scale(atom((n, atom(k).key())), e))
                return r
        if n in ("sin", "cos", "abs", "tan"):
            lead = sorted(p.items(), key=lambda x: str(x[0]))
            if lead and lead[0][1] < 0:
                q = scale(p, Fraction(-1))
                r = atom((n, q.key()))
                return scale(r, Fraction(-1)) if n in ("sin", "tan") else r
        return atom((n,) + tuple(x.key() for x in ps))

    def matfn(self, n, m, xs):
        if n in ("transpose", "adjoint"):
            return Mat(m.c, m.r, [m.at(i, j) for j in range(m.c) for i in range(m.r)], m.arr)
        if n in ("matrix", "array", "cast"):
            return m
        if n == "trace" and m.r == m.c:
            s = Poly()
            for i in range(m.r):
                s = padd(s, m.at(i, i))
            return s
        if n == "sum":
            s = Poly()
            for x in m.e:
                s = padd(s, x)
            return s
        if n == "prod":
            s = const(1)
            for x in m.e:
                s = pmul(s, x)
            return s
        if n in ("squaredNorm", "norm"):
            s = Poly()
            for x in m.e:
                s = padd(s, pmul(x, x))
            return s if n == "squaredNorm" else psqrt(s)
        if n == "value" and len(m.e) == 1:
            return m.e[0]
        if n == "dot" and xs and isinstance(xs[0], Mat) and len(xs[0].e) == len(m.e):
            s = Poly()
            for x, y in zip(m.e, xs[0].e):
                s = padd(s, pmul(x, y))
            return s
        if n == "cross" and xs and isinstance(xs[0], Mat) and len(m.e) == 3 == len(xs[0].e):
            a, b = m.e, xs[0].e
            f = lambda i, j: padd(pmul(a[i], b[j]), pmul(a[j], b[i]), -1)
            return Mat(3, 1, [f(1, 2), f(2, 0), f(0, 1)])
        if n == "asDiagonal":
            k = len(m.e)
            return Mat(k, k, [m.e[i] if i == j else Poly() for i in range(k) for j in range(k)])
        if n == "determinant" and m.r == m.c and m.r <= 4:
            return self.det(m)
        if n == "inverse" and m.r == m.c:
            if m.r == 1:
                return Mat(1, 1, [pinv(m.e[0])])
            # diagonal matrices invert elementwise
            if all(not m.at(i, j) for i in range(m.r) for j in range(m.c) if i != j):
                return Mat(m.r, m.c, [pinv(m.at(i, j)) if i == j else Poly() for i in range(m.r) for j in range(m.c)])
            k = m.key()
            return Mat(m.r, m.c, [atom(("inverse", k, i, j)) for i in range(m.r) for j in range(m.c)])
        return None

    def det(self, m):
        if m.r == 1:
            return m.e[0]
        s = Poly()
        for j in range(m.c):
            sub_ = Mat(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
            s = padd(s, pmul(m.at(0, j), self.det(sub_)), 1 if j % 2 == 0 else -1)
        return s

    def foldnf(self, t):
        rng, init, body = t.a
        acc, i = sym("$acc"), sym("$i")
        lo, hi = rng.a[0], rng.a[1]
        if not (isnum(lo) and lo.a[0] == 0):
            body = subst(body, {i: add(i, lo)})
            hi = sub(hi, lo)
        n0 = self(init)
        # sum
        d = None
        if isinstance(n0, Poly):
            b = NF(self.decide)(body)
            if isinstance(b, Poly):
                ak = NF()(acc)
                (am, _), = ak.items()
                if b.get(am) == 1:
                    rest = padd(b, ak, -1)
                    if not any(mentions(m, am[0][0]) for m in rest):
                        s = Poly()
                        # split constant factors out
                        for m, c in rest.items():
                            inn = tuple((k, e) for k, e in m if mentions(((k, e),), "$i"))
                            outm = tuple((k, e) for k, e in m if not mentions(((k, e),), "$i"))
                            s = padd(s, scale(pmul(Poly({outm: Fraction(1)}),
                                                   pmul(self(hi), const(1)) if not inn else
                                                   atom(("sum", self.key(hi), Poly({inn: Fraction(1)}).key()))), c))
                        return padd(n0, s)
        return atom(("fold", self.key(hi), n0.key(), self.key(body)))


def mentions(x, k):
    if x == k:
        return True
    if isinstance(x, (tuple, list)):
        return any(mentions(y, k) for y in x)
    return False


def flat(t, op):
    if t.op == op:
        return flat(t.a[0], op) + flat(t.a[1], op)
    return [t]


def is_open(t):
    """does the term contain parts the analysis did not resolve?"""
    return contains(t, lambda x: x.op in OPEN)


def same(a, b, decide=None):
    n = NF(decide)
    return n(a).key() == n(b).key()


def pshow(x):
    if isinstance(x, Mat):
        return "[" + ", ".join(pshow(p) for p in x.e) + "]"
    if isinstance(x, Poly):
        if not x:
            return "0"
        return " + ".join((("%g*" % float(c)) if c != 1 or not m else "") + "*".join(
            kshow(k) + ("" if e == 1 else "^%s" % e) for k, e in m) if m else "%g" % float(c) for m, c in sorted(x.items(), key=str))
    return str(x)


def kshow(k):
    if isinstance(k, tuple):
        if k and k[0] == "P":
            return "(" + " + ".join(("%g*" % float(c) if c != 1 or not m else "") + "*".join(kshow(a) + ("" if e == 1 else "^%s" % e) for a, e in m) for m, c in k[1:]) + ")"
        if k and k[0] == "fld":
            return kshow(k[1]) + "." + str(k[2])
        if k and k[0] in ("sym", "deref", "el") and len(k) == 2:
            return kshow(k[1])
        return str(k[0]) + "(" + ",".join(kshow(x) for x in k[1:]) + ")" if k else "()"
    return str(k)
