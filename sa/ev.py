"""Interpretation of terms over small representative models.

Summaries (terms) extracted from the source are compared on representative
points: every uninterpreted leaf (parameter, member, opaque call) receives a
value from a small typed domain that realises the order types of the atoms
which occur in guards.  Congruence holds by construction (equal arguments,
equal value).  The analysed program is never executed; what is evaluated are
the extracted value-number terms, loop summaries included.
"""
import os
import struct
import hashlib
import math
from fractions import Fraction

from .terms import *
from .model import dims
from . import engine as _e


class Open(Exception):
    """the term contains something the abstraction left unresolved"""


class Bottom(Exception):
    """undefined value (division by zero, out-of-range element, uninitialised)"""


class Uninit(Bottom):
    """a value that was never written is read"""


class Outside(Bottom):
    """an element that is not there is read or written"""


class Refused(Bottom):
    """a callee refuses the arguments it is given"""


class Diverges(Open):
    """a loop of the summary does not stop on this model"""


class M:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)

    def key(self):
        return ("M", self.r, self.c, tuple(ck(x) for x in self.e))

    def __repr__(self):
        return "[" + "; ".join(" ".join(fmt(self.e[i * self.c + j]) for j in range(self.c)) for i in range(self.r)) + "]"


class Seq:
    """sequence or dynamic vector with known small length"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def key(self):
        return ("S", tuple(ck(x) for x in self.e))

    def __repr__(self):
        return "{" + ", ".join(fmt(x) for x in self.e) + "}"


STRICT = bool(os.environ.get("SA_STRICT"))


def chol(m, upper):
    """the Cholesky factor of a positive definite matrix"""
    n = m.r
    l = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            x = float(m.e[i * n + j]) - sum(l[i][k] * l[j][k] for k in range(j))
            l[i][j] = math.sqrt(x) if i == j else x / l[j][j]
    return M(n, n, [l[c][r] if upper else l[r][c] for r in range(n) for c in range(n)])


class Tok:
    """uninterpreted value"""
    __slots__ = ("k", "d")

    def __init__(self, *k):
        self.k = tuple(ck(x) for x in k)
        self.d = None

    def key(self):
        if self.d is None:
            self.d = ("T", hashlib.md5(repr(self.k).encode()).hexdigest())
        return self.d

    def __repr__(self):
        return "#" + hashlib.md5(repr(self.k).encode()).hexdigest()[:6]


def fmt(x):
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, float):
        return f"{x:.6g}"
    return repr(x)


def ck(x):
    """hashable canonical key; numbers rounded so that float noise does not split"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (Fraction, int)):
        return float("%.9g" % float(x)) if abs(x) < 10 ** 300 else str(x)
    if isinstance(x, float):
        return float("%.9g" % x) if x == x else "nan"
    if isinstance(x, (M, Seq, Tok)):
        return x.key()
    if isinstance(x, tuple):
        return tuple(ck(y) for y in x)
    if isinstance(x, T):
        return x.id
    return x


def isn(x):
    return isinstance(x, (int, Fraction, float, bool))


def equal(a, b, tol=1e-7):
    if isn(a) and isn(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, M) and isinstance(b, M):
        return (a.r, a.c) == (b.r, b.c) and all(equal(x, y, tol) for x, y in zip(a.e, b.e))
    if isinstance(a, (M, Seq)) and isinstance(b, (M, Seq)):
        return len(a.e) == len(b.e) and all(equal(x, y, tol) for x, y in zip(a.e, b.e))
    if isinstance(a, M) and len(a.e) == 1 and isn(b):
        return equal(a.e[0], b, tol)
    if isinstance(b, M) and len(b.e) == 1 and isn(a):
        return equal(a, b.e[0], tol)
    return ck(a) == ck(b)


INTD = [0, 1, 2, 3, -1]
UINTD = [0, 1, 2, 3]
FLTD = [Fraction(1), Fraction(0), Fraction(2), Fraction(-1), Fraction(1, 2), Fraction(5, 2), Fraction(3), Fraction(-3, 2)]
GENF = [Fraction(7, 5), Fraction(11, 7), Fraction(5, 3), Fraction(23, 9), Fraction(13, 11), Fraction(3, 8), Fraction(17, 6),
        Fraction(-5, 7), Fraction(-11, 6), Fraction(29, 13)]


def kind_of(t):
    """leaf kind from a C++ type string"""
    t = t.replace("const ", "").replace(" &", "").replace("&", "").strip()
    if t in ("bool", "_Bool"):
        return "b"
    if t in ("float", "double", "long double"):
        return "f"
    if t in ("unsigned int", "unsigned long", "unsigned long long", "size_t", "std::size_t", "unsigned short", "unsigned char",
             "size_type", "uint32_t", "uint64_t"):
        return "u"
    if t in ("int", "long", "short", "long long", "char", "signed char", "std::ptrdiff_t", "ptrdiff_t", "sm::timing::NsecTime",
             "Eigen::Index", "SuiteSparse_long"):
        return "i"
    return None


BOOLNAMES = ("is", "has", "contains", "needs", "any", "all", "equal")


class Interp:
    """one representative model"""

    def __init__(self, seed=0, given=None, mode="mix", maxlen=3, posleaf=()):
        self.seed = seed
        self.given = given or {}
        self.mode = mode
        self.memo = {}
        self.leaves = {}
        self.maxlen = maxlen
        self.extra = ()
        self.factor = {}

    # ---------------------------------------------------------------- leaves
    def h(self, *k):
        d = hashlib.md5(repr((self.seed,) + k).encode()).digest()
        return int.from_bytes(d[:6], "big")

    def draw(self, kind, *k):
        x = self.h(*k)
        if self.extra and kind in "uif" and (x >> 33) % 3 == 0:
            c = self.extra[x % len(self.extra)]
            if kind == "f":
                return c
            c = int(c)
            return c if kind == "i" else abs(c)
        if kind == "b":
            return bool(x & 1)
        if kind == "u":
            return UINTD[x % len(UINTD)]
        if kind == "i":
            return INTD[x % len(INTD)]
        if self.mode == "pos":
            return abs(GENF[x % len(GENF)]) + Fraction((x >> 8) % 97, 31)
        if self.mode == "gen":
            return GENF[x % len(GENF)] + Fraction((x >> 8) % 97, 89)
        if (x >> 20) % 3 == 0:
            return GENF[x % len(GENF)]
        return FLTD[x % len(FLTD)]

    def typed(self, ty, *k):
        if ty:
            kd = kind_of(ty)
            if kd:
                return self.draw(kd, *k)
            vec = ty.replace("const ", "").startswith("std::vector<")
            d = None if vec else dims(ty.replace("&", "").strip()) or _e.dims_in(ty)
            if d is not None:
                r, c = d
                n = 1 + self.h("rows", *k) % self.maxlen
                m = 1 + self.h("cols", *k) % self.maxlen
                r = r if r > 0 else n
                c = c if c > 0 else m
                i = ty.find("<")
                ek = kind_of(ty[i + 1:].split(",")[0]) or "f"
                e = [self.draw(ek, "el", i, *k) for i in range(r * c)]
                if r == c and r > 1 and ek == "f":
                    z = self.h("symm", *k) % 4
                    if z < 3:  # symmetric
                        e = [e[min(i, j) * c + max(i, j)] for i in range(r) for j in range(c)]
                    if z < 2:  # and diagonally dominant, hence positive definite
                        for i in range(r):
                            e[i * c + i] = 1 + sum(abs(e[i * c + j]) for j in range(c))
                return M(r, c, e)
            if "vector<" in ty and "allocator" not in ty.split("<")[0]:
                n = self.h("len", *k) % (self.maxlen + 1)
                inner = ty[ty.find("vector<") + 7:]
                ity = inner[:inner.find(", std::allocator")] if ", std::allocator" in inner else inner.rstrip("> ")
                if inner.startswith("Eigen"):
                    ity = inner
                e = [self.typed(ity, "el", i, *k) for i in range(n)]
                if n > 1 and self.h("twin", *k) % 4 == 0:     # equal neighbours
                    i = self.h("twinat", *k) % (n - 1)
                    e[i + 1] = e[i]
                return Seq(e)
        return None

    def leaf(self, t, ty=None, *k):
        if t in self.given:
            v = self.given[t]
        else:
            ty = ty or _e.TYPES.get(t)
            v = self.typed(ty, *(k or (self.tkey(t),)))
            if v is None:
                v = Tok("leaf", *(k or (self.tkey(t),)))
        self.leaves[t] = v
        return v

    def tkey(self, t):
        return show(t)

    # ---------------------------------------------------------------- values
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def num(self, t):
        v = self(t)
        if isinstance(v, M) and len(v.e) == 1:
            v = v.e[0]
        return v

    def asnum(self, v, *k):
        """a token used as a number becomes a hashed number"""
        if isinstance(v, Tok):
            return self.draw("f", "tok", v.key())
        if isinstance(v, M) and len(v.e) == 1:
            return v.e[0]
        return v

    def bool(self, t):
        v = self(t)
        if isinstance(v, Tok):
            return bool(self.h("bool", v.key()) & 1)
        if isinstance(v, (M, Seq)):
            raise Open("boolean of matrix")
        return bool(v)

    def add2(self, a, b):
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isn(a) or isn(b):
                return self.asnum(a) + self.asnum(b)
            ks = sorted([repr(ck(a)), repr(ck(b))])
            return Tok("add", *ks)
        if isinstance(a, (M, Seq)) or isinstance(b, (M, Seq)):
            return self.bc(a, b, self.add2)
        if a is None or b is None:
            raise Open("no value")
        return a + b

    def bc(self, a, b, f):
        if isn(a):
            a = type(b)(*( (b.r, b.c) if isinstance(b, M) else ()), [a] * len(b.e))
        if isn(b):
            b = type(a)(*( (a.r, a.c) if isinstance(a, M) else ()), [b] * len(a.e))
        if isinstance(a, Tok) or isinstance(b, Tok):
            return Tok("bc", a, b)
        if len(a.e) != len(b.e):
            raise Bottom("dimension mismatch")
        e = [f(x, y) for x, y in zip(a.e, b.e)]
        return M(a.r, a.c, e) if isinstance(a, M) else M(b.r, b.c, e) if isinstance(b, M) else Seq(e)

    def mul2(self, a, b):
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isn(a) and a == 1:
                return b
            if isn(b) and b == 1:
                return a
            if (isn(a) and a == 0) or (isn(b) and b == 0):
                return Fraction(0)
            if isn(a) or isn(b):
                return self.asnum(a) * self.asnum(b)
            ks = sorted([repr(ck(a)), repr(ck(b))])
            return Tok("mul", *ks)
        if isinstance(a, (M, Seq)) or isinstance(b, (M, Seq)):
            return self.bc(a, b, self.mul2)
        return a * b

    def div2(self, a, b):
        if isinstance(a, (M, Seq)) or isinstance(b, (M, Seq)):
            return self.bc(a, b, self.div2)
        a, b = self.asnum(a), self.asnum(b)
        if b == 0:
            raise Bottom("division by zero")
        if isinstance(a, float) or isinstance(b, float):
            return a / b
        return Fraction(a) / Fraction(b)

    def mm(self, a, b):
        if isn(a) or isn(b):
            return self.mul2(a, b)
        if isinstance(a, Seq):
            a = M(len(a.e), 1, a.e)
        if isinstance(b, Seq):
            b = M(len(b.e), 1, b.e)
        if not (isinstance(a, M) and isinstance(b, M)):
            return Tok("mm", a, b)
        if a.c != b.r:
            if len(a.e) == 1 or len(b.e) == 1:
                return self.mul2(a.e[0] if len(a.e) == 1 else a, b.e[0] if len(b.e) == 1 else b)
            raise Bottom("dimension mismatch")
        e = []
        for i in range(a.r):
            for j in range(b.c):
                s = 0
                for k in range(a.c):
                    s = self.add2(s, self.mul2(a.e[i * a.c + k], b.e[k * b.c + j]))
                e.append(s)
        return M(a.r, b.c, e)

    def cmp(self, a, b):
        if isinstance(a, M) and len(a.e) == 1:
            a = a.e[0]
        if isinstance(b, M) and len(b.e) == 1:
            b = b.e[0]
        a, b = self.asnum(a), self.asnum(b)
        if not (isn(a) and isn(b)):
            raise Open("comparison")
        if (isinstance(a, float) or isinstance(b, float)) and not self.fp:
            if a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-10 * max(1, abs(a), abs(b))):
                return 0
        return (a > b) - (a < b)

    def cwise(self, a, b, f):
        if isinstance(a, (M, Seq)) and isinstance(b, (M, Seq)) or (isinstance(a, (M, Seq)) and len(a.e) != 1) or \
           (isinstance(b, (M, Seq)) and len(b.e) != 1):
            return self.bc(a, b, lambda x, y: int(f(self.cmp(x, y))))
        return f(self.cmp(a, b))

    def _ev(self, t):
        if t in self.given:
            v = self.given[t]
            self.leaves[t] = v
            return v
        o, a = t.op, t.a
        if o == "num":
            v = a[0]
            return v if v.denominator != 1 else int(v)
        f = getattr(self, "op_" + o, None)
        if f:
            try:
                return f(t, *a)
            except (TypeError, AttributeError, OverflowError) as e:
                if STRICT:
                    raise
                raise Open(f"{o} of values of another kind ({e})")
        if o in ("phi", "after", "iv", "unwritten", "refof", "out"):
            raise Open(o)
        if o == "uninit":
            raise Uninit("uninitialised " + str(a[0]))
        return Tok(o, *[self.any(x) for x in a])

    def any(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def op_sym(self, t, n):
        if n == "inf":
            return float("inf")
        if n == "-inf":
            return float("-inf")
        if n == "nan":
            return float("nan")
        return self.leaf(t)

    def op_null(self, t):
        return Tok("null")

    def op_void(self, t):
        return Tok("void")

    def op_str(self, t, s):
        return Tok("str", s)

    def op_deref(self, t, p):
        return self.leaf(t, None)

    def op_glob(self, t, n):
        return self.leaf(t, None)

    def op_new(self, t, *a):
        return Tok("new", *[self.any(x) for x in a[:-1]])

    def op_fld(self, t, b, n):
        if b.op in ("sym", "deref", "glob", "fld"):
            ty = _e.TYPES.get(t)
            if t not in self.given and ty is None:
                v = self(b)
                if isinstance(v, Tok) and b.op in ("fld", "deref"):
                    return Tok("fld", v, n)
                return self.leaf(t, ty)
            return self.leaf(t, ty)
        v = self(b)
        ty = _e.TYPES.get(t)
        r = self.typed(ty, "fld", ck(v), n) if ty else None
        return r if r is not None else Tok("fld", v, n)

    def op_add(self, t, *xs):
        v = self(xs[0])
        for x in xs[1:]:
            v = self.add2(v, self(x))
        return v

    def op_cat(self, t, *xs):
        return Tok("cat", *[self.any(x) for x in xs])

    def op_neg(self, t, x):
        v = self(x)
        return self.mul2(-1, v)

    lossy = False
    fp = False      # floats as they are, no tolerance

    def op_f32(self, t, x):
        """conversion to single precision: the identity unless the rule asks for its rounding"""
        v = self(x)
        return struct.unpack("f", struct.pack("f", float(v)))[0] if self.lossy and isn(v) else v

    def op_mul(self, t, *xs):
        v = self(xs[0])
        for x in xs[1:]:
            v = self.mul2(v, self(x))
        return v

    def op_amul(self, t, x, y):
        return self.mul2(self(x), self(y))

    def op_mmul(self, t, x, y):
        return self.mm(self(x), self(y))

    def op_div(self, t, x, y):
        return self.div2(self(x), self(y))

    def op_idiv(self, t, x, y):
        a, b = self.asnum(self(x)), self.asnum(self(y))
        if b == 0:
            raise Bottom("division by zero")
        q = abs(int(a)) // abs(int(b))
        return q if (a < 0) == (b < 0) else -q

    def op_mod(self, t, x, y):
        a, b = self.asnum(self(x)), self.asnum(self(y))
        if b == 0:
            raise Bottom("modulo zero")
        return int(math.fmod(a, b)) if abs(a) < 2 ** 50 else int(a) % int(b)

    def op_usub(self, t, x, y):
        a, b = self.asnum(self(x)), self.asnum(self(y))
        return int(a - b) % (2 ** 64)

    def op_ucast(self, t, x):
        v = self.asnum(self(x))
        return int(v) % (2 ** 64)

    def op_toint(self, t, x):
        v = self(x)
        if isinstance(v, (M, Seq)):
            return type(v)(*((v.r, v.c) if isinstance(v, M) else ()), [int(y) for y in v.e])
        v = self.asnum(v)
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            raise Bottom("integer of inf")
        if isinstance(v, float) and abs(v - round(v)) < 1e-9:
            return int(round(v))
        return int(v)

    def op_lt(self, t, x, y):
        return self.cwise(self(x), self(y), lambda c: c < 0)

    def op_le(self, t, x, y):
        return self.cwise(self(x), self(y), lambda c: c <= 0)

    def op_eq(self, t, x, y):
        a, b = self(x), self(y)
        if isn(a) and isn(b) or self.fp and isinstance(a, M) and isinstance(b, M) and len(a.e) == len(b.e) == 1:
            return self.cmp(a, b) == 0
        if isn(a) and isinstance(b, Tok) or isn(b) and isinstance(a, Tok):
            return self.cmp(a, b) == 0
        if isinstance(a, Tok) and isinstance(b, Tok):
            n = Tok("null")
            if a.key() != b.key() and (a.key() == n.key() or b.key() == n.key()):
                o = b if a.key() == n.key() else a
                if o.k and o.k[0] == "new":
                    return False
                return self.h("isnull", o.key()) % 4 == 0
        return equal(a, b)

    def op_not(self, t, x):
        v = self(x)
        if isinstance(v, M):
            return M(v.r, v.c, [int(not e) for e in v.e])
        return not self.bool(x)

    def op_and(self, t, x, y):
        a = self(x)
        if isinstance(a, M):
            return self.bc(a, self(y), lambda p, q: int(bool(p) and bool(q)))
        return self.bool(x) and self.bool(y)

    def op_or(self, t, x, y):
        a = self(x)
        if isinstance(a, M):
            return self.bc(a, self(y), lambda p, q: int(bool(p) or bool(q)))
        return self.bool(x) or self.bool(y)

    def op_ite(self, t, c, x, y):
        return self(x) if self.bool(c) else self(y)

    def op_mat(self, t, r, c, el):
        return M(r, c, [self(x) for x in el])

    def op_arr(self, t, x):
        return self(x)

    def length(self, v):
        """a value used as a size"""
        v = self.asnum(v)
        if not isn(v) or v != v or abs(v) == float("inf"):
            raise Open("size")
        v = int(v)
        if v < 0:
            raise Bottom("negative size")
        if v > 64:
            raise Bottom("huge size") if v > 2 ** 40 else Open("large size")
        return v

    def op_fill(self, t, v, *n):
        if n:
            ns = [self.length(self(x)) for x in n]
            r, c = (ns[0], 1) if len(ns) == 1 else ns[:2]
            return M(r, c, [self(v)] * (r * c))
        return Tok("fill", self(v))

    def op_empty(self, t):
        return Seq(())

    def op_rec(self, t, cls, fs):
        return Tok("rec", tuple((n, self(v)) for n, v in fs))

    def op_ctor(self, t, cls, *a):
        if a and isinstance(a[-1], T) and a[-1].op == "ctor" and "allocator<" in str(a[-1].a[0]).split("<")[0] + "<":
            a = a[:-1]
        v = [self.any(x) for x in a]
        if "vector<" in cls.split("allocator")[0] and len(v) in (1, 2) and isn(v[0]):
            return Seq([v[1] if len(v) == 2 else 0] * self.length(v[0]))
        if dims(cls) and len(v) == 1:
            return v[0]
        r = Tok("ctor", cls, *v)
        if len(v) == 1 and isinstance(v[0], M) and ("LLT<" in cls or "LDLT<" in cls):
            self.factor[r.k] = v[0]
        return r

    def op_zero(self, t, cls):
        if "vector<" in cls:
            return Seq(())
        return Tok("zero", cls)

    def op_sized(self, t, n, old, *sz):
        ns = [self.length(self(x)) for x in sz]
        r, c = (ns[0], 1) if len(ns) == 1 else ns[:2]
        o = self(old)
        return M(r, c, [Tok("sized", o, i) for i in range(r * c)])

    # ---- elements
    def pos(self, v, ii):
        if isinstance(v, Seq):
            if len(ii) == 1 and isn(ii[0]):
                return int(ii[0]) if 0 <= ii[0] < len(v.e) else None
        if isinstance(v, M):
            if len(ii) == 1:
                return int(ii[0]) if 0 <= ii[0] < len(v.e) else None
            if len(ii) == 2 and 0 <= ii[0] < v.r and 0 <= ii[1] < v.c:
                return int(ii[0]) * v.c + int(ii[1])
        return None

    def proxy(self, v, sel, ii):
        try:
            ii = [int(self.asnum(x)) for x in ii]
        except TypeError:
            return None
        p = proxy_positions(sel, ii, v.r, v.c)
        if p is None and sel.split("<")[0] not in ("triangularView",):
            raise Bottom("block outside matrix")
        return p

    def op_idx(self, t, c, *i):
        v = self(c)
        if i and isinstance(i[0], T) and i[0].op == "str" and isinstance(v, M):
            p = self.proxy(v, i[0].a[0], [self(x) for x in i[1:]])
            if p is None:
                return Tok("idx", v, *[self.any(x) for x in i])
            ps, h, w = p
            return M(h, w, [v.e[k] for k in ps])
        ii = [self.any(x) for x in i]
        ii = [self.asnum(x) if isinstance(x, Tok) and isinstance(v, (M, Seq)) else x for x in ii]
        if isinstance(v, (M, Seq)) and all(isn(x) for x in ii):
            k = self.pos(v, ii)
            if k is None:
                raise Outside("element outside container")
            return v.e[k]
        if isinstance(v, Tok) and v.k and v.k[0] == "fill":
            return v.k[1]
        ty = _e.TYPES.get(t)
        if ty:
            r = self.typed(ty, "idx", ck(v), ck(tuple(ii)))
            if r is not None:
                return r
        return Tok("idx", v, *ii)

    def op_upd(self, t, c, i, x):
        v = self(c)
        if i and isinstance(i[0], T) and i[0].op == "str" and isinstance(v, M):
            p = self.proxy(v, i[0].a[0], [self(y) for y in i[1:]])
            if p is not None:
                w = self(x)
                e = list(v.e)
                for n, k in enumerate(p[0]):
                    e[k] = w.e[n] if isinstance(w, (M, Seq)) else w if isn(w) else Tok("el", w, n)
                return M(v.r, v.c, e)
        ii = [self.any(y) for y in i]
        w = self(x)
        if isinstance(v, (M, Seq)) and all(isn(y) for y in ii):
            k = self.pos(v, ii)
            if k is None:
                raise Outside("element outside container")
            e = v.e[:k] + (w,) + v.e[k + 1:]
            return M(v.r, v.c, e) if isinstance(v, M) else Seq(e)
        return Tok("upd", v, tuple(ii), w)

    def op_setrange(self, t, rng, init, body):
        v = self(init)
        lo, hi = int(self.asnum(self(rng.a[0]))), int(self.asnum(self(rng.a[1])))
        if not isinstance(v, (M, Seq)):
            raise Open("setrange of unknown sequence")
        e = list(v.e)
        for k in range(lo, hi):
            if not 0 <= k < len(e):
                raise Outside("element outside container")
            e[k] = self.sub_eval(body, {sym("$el"): e[k], sym("$i"): k})
        return M(v.r, v.c, e) if isinstance(v, M) else Seq(e)

    def sub_eval(self, body, binds):
        return self.fresh(binds)(body)

    def fresh(self, binds):
        """the same interpretation with further bindings"""
        I = type(self)(self.seed, {**self.given, **binds}, self.mode, self.maxlen)
        I.extra, I.factor = self.extra, self.factor
        return I

    def op_fold(self, t, rng, init, body):
        lo, hi = int(self.asnum(self(rng.a[0]))), int(self.asnum(self(rng.a[1])))
        if hi - lo > 40:
            raise Open("long fold")
        acc = self(init)
        for k in range(lo, hi):
            acc = self.sub_eval(body, {sym("$acc"): acc, sym("$i"): k})
        return acc

    def op_loop(self, t, depth, j, names, inits, bodies, cont):
        key = ("loop", depth, inits, bodies, cont)
        vals = self.memo.get(key)
        if vals is None:
            syms = [sym("$L%d.%d" % (depth, k)) for k in range(len(inits))]
            vals = [self.lazy(x) for x in inits]
            for it in range(48):
                g = {y: v for y, v in zip(syms, vals) if not isinstance(v, Exception)}
                I = self.fresh(g)
                if not I.bool(cont):
                    break
                vals = [I.lazy(b) for b in bodies]
            else:
                raise Diverges("loop does not stop within 48 iterations")
            self.memo[key] = vals
        v = vals[j]
        if isinstance(v, Exception):
            raise v
        return v

    def lazy(self, t):
        try:
            return self(t)
        except (Open, Bottom) as e:
            return e

    def op_forall(self, t, lo, hi, p):
        lo, hi = int(self.asnum(self(lo))), int(self.asnum(self(hi)))
        if hi - lo > 40:
            raise Open("long range")
        return all(bool(self.sub_eval(p, {sym("$i"): k})) for k in range(lo, hi))

    def op_mut(self, t, n, old, *a):
        v = self(old)
        av = [self.any(x) for x in a]
        if isinstance(v, Seq):
            if n in ("push_back", "emplace_back") and len(av) == 1:
                return Seq(v.e + (av[0],))
            if n == "pop_back":
                if not v.e:
                    raise Outside("pop of empty")
                return Seq(v.e[:-1])
            if n in ("resize", "assign") and isn(av[0]):
                k = self.length(av[0])
                f = av[1] if len(av) > 1 else 0
                if n == "assign":
                    return Seq([f] * k)
                return Seq((v.e + (f,) * k)[:k])
            if n == "reserve":
                return v
            if n == "clear":
                return Seq(())
            if n == "erase" and isn(av[0]) and len(av) == 1:
                k = int(av[0])
                return Seq(v.e[:k] + v.e[k + 1:])
            if n == "erase" and len(av) == 2 and isn(av[0]) and isn(av[1]):
                return Seq(v.e[:int(av[0])] + v.e[int(av[1]):])
            if n in ("insert", "emplace") and len(av) == 2 and isn(av[0]) and a[0].op == "iter":
                k = int(av[0])
                return Seq(v.e[:k] + (av[1],) + v.e[k:])
        return Tok("mut", n, v, *av)

    def op_has(self, t, c, k):
        v = self(c)
        kv = self(k)
        if isinstance(v, Seq):
            return any(equal(x, kv) for x in v.e)
        return bool(self.h("has", ck(v), ck(kv)) & 1)

    # ---- functions
    def op_call(self, t, n, *a):
        v = [self.any(x) for x in a]
        r = self.fn(n, v)
        if r is not None:
            return r
        ty = _e.TYPES.get(t)
        k = ("call", n) + tuple(ck(x) for x in v)
        if ty:
            r = self.typed(ty, *k)
            if r is not None:
                return r
        if n.startswith(BOOLNAMES):
            return self.draw("b", *k)
        if n in ("size", "rows", "cols", "count"):
            return self.draw("u", *k)
        return Tok(*k)

    def op_refof(self, t, n, *a):
        return Tok("refof", n, *[ck(self.any(x)) for x in a])

    def op_ret(self, t, n, *a):
        v = [self.any(x) for x in a]
        ty = _e.TYPES.get(t)
        k = ("ret", n) + tuple(ck(x) for x in v)
        if ty:
            r = self.typed(ty, *k)
            if r is not None:
                return r
        return Tok(*k)

    def fn(self, n, v):
        if n == "operator bool" and len(v) == 1 and isn(v[0]):
            return bool(v[0])
        if n in ("abs", "sqrt", "log", "exp", "floor", "ceil", "sin", "cos", "tan", "log2", "round", "atan", "erf"):
            x = v[0]
            if isinstance(x, (M, Seq)):
                return type(x)(*((x.r, x.c) if isinstance(x, M) else ()), [self.fn(n, [e]) for e in x.e])
            if isinstance(x, Tok):
                return self.fn(n, [self.asnum(x)]) if n == "abs" else None
            if n == "abs":
                return abs(x)
            if n == "floor":
                return math.floor(x + Fraction(1, 10 ** 10)) if isinstance(x, float) and not self.fp else math.floor(x)
            if n == "ceil":
                return math.ceil(x - Fraction(1, 10 ** 10)) if isinstance(x, float) and not self.fp else math.ceil(x)
            try:
                return {"sqrt": math.sqrt, "log": math.log, "exp": math.exp, "sin": math.sin, "cos": math.cos, "tan": math.tan,
                        "log2": math.log2, "round": _e.half_away, "atan": math.atan, "erf": math.erf}[n](x)
            except (ValueError, OverflowError):
                raise Bottom(n)
        if n in ("lgamma", "digamma", "gamma_p", "gamma_q", "erfc", "tgamma", "gamma_p_inv", "gamma_q_inv") and all(isn(x) for x in v):
            try:
                return special(n, [float(x) for x in v])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Bottom(n)
        if n in ("quantile", "cdf", "pdf") and len(v) == 2 and isinstance(v[0], Tok) and len(v[0].k) == 4 and v[0].k[0] == "ctor" and \
                "gamma_distribution" in str(v[0].k[1]) and isn(v[0].k[2]) and isn(v[0].k[3]) and isn(v[1]):
            a, b = v[0].k[2:]
            try:
                if n == "quantile":
                    return special("gamma_p_inv", [a, float(v[1])]) * b
                if n == "cdf":
                    return special("gamma_p", [a, float(v[1]) / b])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Bottom(n)
        if n == "epsilon" and not v:
            return 2.0 ** -52
        if n == "infinity" and not v:
            return float("inf")
        if n == "info" and len(v) == 1 and isinstance(v[0], Tok) and v[0].k[:1] == ("ctor",):
            m = self.factor.get(v[0].k)
            if m is not None:
                return 0 if self.posdef(m) else 1
        if n in ("matrixL", "matrixU") and len(v) == 1 and isinstance(v[0], Tok) and "LDLT" not in str(v[0].k[1:2]):
            m = self.factor.get(v[0].k)
            if m is not None and self.posdef(m):
                return chol(m, n == "matrixU")
        if n == "isPositive" and len(v) == 1 and isinstance(v[0], Tok):
            m = self.factor.get(v[0].k)
            if m is not None:
                return self.posdef(m, True)
        if n == "pow" and all(isn(x) for x in v):
            try:
                r = float(v[0]) ** float(v[1])
                if isinstance(r, complex):
                    raise Bottom("pow")
                return r
            except (ZeroDivisionError, OverflowError):
                raise Bottom("pow")
        if n == "atan2" and all(isn(x) for x in v):
            return math.atan2(v[0], v[1])
        if n in ("max", "min") and len(v) == 2 and all(isn(x) for x in v):
            return max(v) if n == "max" else min(v)
        if n in ("isnan", "isfinite") and isn(v[0]):
            return (v[0] != v[0]) if n == "isnan" else math.isfinite(v[0])
        if v and isinstance(v[0], Seq):
            if n == "size":
                return len(v[0].e)
            if n == "count" and len(v) == 2:
                return sum(1 for x in v[0].e if equal(x, v[1]))
        if v and isn(v[0]) and n in ("any", "all", "sum", "prod", "minCoeff", "maxCoeff", "transpose", "determinant", "inverse", "norm",
                                     "squaredNorm", "trace", "cwiseInverse", "mean"):
            v = [M(1, 1, [v[0]])] + list(v[1:])
        if v and isinstance(v[0], M):
            m = v[0]
            if n == "size":
                return len(m.e)
            if n == "rows":
                return m.r
            if n == "cols":
                return m.c
            if n == "sum":
                return self.fold(m.e, self.add2, 0)
            if n == "prod":
                return self.fold(m.e, self.mul2, 1)
            if n in ("minCoeff", "maxCoeff") and all(isn(x) for x in m.e) and m.e and len(v) == 1:
                return (min if n == "minCoeff" else max)(m.e)
            if n == "any":
                return any(bool(x) for x in m.e)
            if n == "all":
                return all(bool(x) for x in m.e)
            if n == "count":
                return sum(1 for x in m.e if x)
            if n in ("transpose", "adjoint"):
                return M(m.c, m.r, [m.e[i * m.c + j] for j in range(m.c) for i in range(m.r)])
            if n in ("squaredNorm", "norm"):
                s = self.fold([self.mul2(x, x) for x in m.e], self.add2, 0)
                return s if n == "squaredNorm" else (math.sqrt(s) if isn(s) else None)
            if n == "dot" and isinstance(v[1], M):
                return self.fold([self.mul2(x, y) for x, y in zip(m.e, v[1].e)], self.add2, 0)
            if n == "trace":
                return self.fold([m.e[i * m.c + i] for i in range(min(m.r, m.c))], self.add2, 0)
            if n == "asDiagonal":
                k = len(m.e)
                return M(k, k, [m.e[i] if i == j else 0 for i in range(k) for j in range(k)])
            if n == "determinant" and m.r == m.c and all(isn(x) for x in m.e):
                return self.det(m)
            if n == "inverse" and m.r == m.c and all(isn(x) for x in m.e):
                return self.inv(m)
            if n in ("isApprox",) and len(v) >= 2 and isinstance(v[1], M):
                if len(v) == 2 or not isn(v[2]) or not all(isn(x) for x in m.e + v[1].e) or len(m.e) != len(v[1].e):
                    return equal(m, v[1])
                d, a, b = (sum(x * x for x in q) for q in ([x - y for x, y in zip(m.e, v[1].e)], m.e, v[1].e))
                return d <= max(v[2], Fraction(1, 10 ** 9)) ** 2 * min(a, b)
            if n in ("hasNaN",):
                return False
            if n == "allFinite":
                return True
            if n == "cwiseQuotient" and isinstance(v[1], M):
                return self.bc(m, v[1], self.div2)
            if n == "cwiseInverse":
                return M(m.r, m.c, [self.div2(1, x) for x in m.e])
            if n in ("cwiseMax", "cwiseMin") and len(v) == 2:
                f = max if n == "cwiseMax" else min
                return self.bc(m, v[1], lambda x, y: f(x, y))
        return None

    def fold(self, xs, f, z):
        for x in xs:
            z = f(z, x)
        return z

    def posdef(self, m, semi=False):
        """positive (semi)definiteness by elimination (rational arithmetic)"""
        n = m.r
        if m.r != m.c or not all(isn(x) for x in m.e):
            raise Open("definiteness")
        a = [[Fraction(m.e[max(i, j) * n + min(i, j)]) for j in range(n)] for i in range(n)]   # lower triangle, as Eigen
        left = list(range(n))
        while left:
            p = max(left, key=lambda i: a[i][i])
            if a[p][p] < 0 or any(a[i][i] < 0 for i in left):
                return False
            if a[p][p] == 0:
                return semi and all(a[i][j] == 0 for i in left for j in left)
            left.remove(p)
            for i in left:
                f = a[i][p] / a[p][p]
                for j in left:
                    a[i][j] -= f * a[p][j]
        return True

    def det(self, m):
        n = m.r
        a = [[m.e[i * n + j] for j in range(n)] for i in range(n)]
        if any(isinstance(x, float) for r in a for x in r):
            a = [[float(x) for x in r] for r in a]
        else:
            a = [[Fraction(x) for x in r] for r in a]
        d = 1
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(a[r][c]))
            if abs(a[p][c]) < 1e-12:
                return 0
            if p != c:
                a[p], a[c] = a[c], a[p]
                d = -d
            d *= a[c][c]
            for r in range(c + 1, n):
                f = a[r][c] / a[c][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        return d

    def inv(self, m):
        n = m.r
        fl = any(isinstance(x, float) for x in m.e)
        cv = float if fl else Fraction
        a = [[cv(m.e[i * n + j]) for j in range(n)] + [cv(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(a[r][c]))
            if abs(a[p][c]) < 1e-12:
                raise Bottom("singular")
            a[p], a[c] = a[c], a[p]
            d = a[c][c]
            a[c] = [x / d for x in a[c]]
            for r in range(n):
                if r != c and a[r][c] != 0:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        return M(n, n, [a[i][n + j] for i in range(n) for j in range(n)])


def special(n, v):
    if n == "lgamma":
        if v[0] <= 0 and v[0] == int(v[0]):
            raise ValueError
        return math.lgamma(v[0])
    if n == "tgamma":
        return math.gamma(v[0])
    if n == "erfc":
        return math.erfc(v[0])
    if n == "digamma":
        x, r = v[0], 0.0
        if x <= 0 and x == int(x):
            raise ValueError
        while x < 12:
            r -= 1 / x
            x += 1
        f = 1 / (x * x)
        return r + math.log(x) - 0.5 / x - f * (1 / 12 - f * (1 / 120 - f * (1 / 252 - f * (1 / 240 - f / 132))))
    a, x = v
    if a <= 0 or x < 0:
        raise ValueError
    if n.endswith("_inv"):
        p = x if n == "gamma_p_inv" else 1 - x
        if p == 0:
            return 0.0
        if not 0 < p < 1:
            raise ValueError
        lo, hi = 0.0, a + 10
        while special("gamma_p", [a, hi]) < p:
            hi *= 2
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if special("gamma_p", [a, mid]) < p else (lo, mid)
        return (lo + hi) / 2
    s = t = 1 / a
    k = a
    for _ in range(3000):
        k += 1
        t *= x / k
        s += t
        if t < s * 1e-17:
            break
    p = s * math.exp(-x + a * math.log(x) - math.lgamma(a)) if x > 0 else 0.0
    return p if n == "gamma_p" else 1 - p


def constants(outs):
    """values around the literal constants that guards and results mention"""
    cs = set()
    seen = set()

    def walk(t):
        if isinstance(t, T):
            if t in seen:
                return
            seen.add(t)
            if t.op == "num":
                cs.add(t.a[0])
            for x in t.a:
                walk(x)
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
    for o in outs:
        for a, _ in o.facts.d.items():
            walk(a)
        if isinstance(o.val, T):
            walk(o.val)
        for r, d in o.st.store.items():
            if r[0] == "o":
                for v in d.values():
                    walk(v)
    out = []
    for c in sorted(cs):
        if abs(c) in (0, 1, 2, Fraction(1, 2), 3) or abs(c) > 10 ** 18:
            continue
        if c.denominator == 1:
            out += [c, c - 1, c + 1, -c, c + Fraction(1, 2)]
        if abs(c) < 1:
            out += [1 + c / 2, 1 - c / 2, 1 + 2 * c, c / 2, -c / 2]
        out += [c * 2]
    return out[:60]


def interps(n, given=None, mode="mix", seed=1, maxlen=3):
    for i in range(n):
        yield Interp(seed * 100003 + i, given, mode, maxlen)


class Loose(Interp):
    """loop-carried values are arbitrary (used to decide whether an outcome can be reached at all)"""

    def op_iv(self, t, d, lo, hi):
        a, b = self.asnum(self(lo)), self.asnum(self(hi))
        if not (isn(a) and isn(b)) or b <= a:
            raise Bottom("empty loop")
        return int(a) + self.h("iv", d) % int(b - a)

    def op_phi(self, t, d, nm, init, *u):
        v = self(init)
        if isinstance(v, bool):
            return bool(self.h("phi", nm, d) & 1)
        if isinstance(v, int):
            return self.draw("i", "phi", nm, d)
        if isn(v):
            return self.draw("f", "phi", nm, d)
        if isinstance(v, M):
            return M(v.r, v.c, [self.draw("i" if isinstance(x, int) else "f", "phi", nm, d, i) for i, x in enumerate(v.e)])
        if isinstance(v, Seq) and u:
            return Seq([self.draw("f", "phi", nm, d, i) if isn(x) else Tok("phi", nm, i) for i, x in enumerate(v.e)])
        return Tok("phi", nm, d)
