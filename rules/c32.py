"""C32 samplers follow the law they are named after."""
import hashlib
from itertools import product

from .dom import *
from sa.engine import LoopEv
from sa.ev import Seq, Tok
from sa.lib import Ambiguous
from sa.project import load

SCALE = {"random": 2147483647, "rand": 2147483647, "drand48": 1.0}
INF = float("inf")
N = 4000


class No(Exception):
    pass


# ---------------------------------------------------------------- the extracted transform as a function of the draws
def S_log(x):
    return math.log(x) if x > 0 else (-INF if x == 0 else math.nan)


def S_pow(a, b):
    try:
        return a ** b if a >= 0 or b == int(b) else math.nan
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF


def S_div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(INF, a) * math.copysign(1, b)
    return a / b


def S_int(x):
    if x != x or x in (INF, -INF):
        raise No("conversion of a value that is not finite")
    return math.trunc(x)


def S_round(x):
    return x if x != x or x in (INF, -INF) else math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)


def S_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def S_fl(x):
    return x if x in (INF, -INF) or x != x else float(math.floor(x))


def S_ce(x):
    return x if x in (INF, -INF) or x != x else float(math.ceil(x))


FUN = {"log": "S_log", "exp": "S_exp", "sqrt": "S_sqrt", "floor": "S_fl", "ceil": "S_ce", "round": "S_round", "abs": "abs", "fabs": "abs", "pow": "S_pow",
       "cos": "math.cos", "sin": "math.sin", "log1p": "S_log1p", "expm1": "math.expm1", "min": "min", "max": "max", "trunc": "S_int",
       "lround": "S_round", "llround": "S_round", "rint": "S_round", "fmin": "min", "fmax": "max", "isfinite": "math.isfinite"}
ENV = {"math": math, "S_log": S_log, "S_pow": S_pow, "S_div": S_div, "S_int": S_int, "S_round": S_round, "S_exp": S_exp, "S_fl": S_fl, "S_ce": S_ce,
       "S_sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan, "S_log1p": lambda x: S_log(1 + x)}


def occurs(t, op):
    return contains(t, lambda x: x.op == op)


class Code:
    """one straight-line function of the draws D and the loop state S, for given parameters"""

    def __init__(self, params, nout, scale):
        self.params, self.nout, self.scale = params, nout, scale
        self.lines, self.memo, self.n = [], {}, 0
        self.folds = nout       # next draw handed to an unrolled sum

    def tmp(self, e):
        self.n += 1
        self.lines.append(f" t{self.n}={e}")
        return f"t{self.n}"

    def go(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self.one(t)
        return r

    def one(self, t):
        o, a = t.op, t.a
        if o == "num":
            v = a[0]
            return repr(int(v)) if v.denominator == 1 else repr(float(v))
        p = t.a[0] if o == "deref" else t
        if p.op == "sym" and p.a[0] in self.params:
            v = self.params[p.a[0]]
            if isinstance(v, (list, tuple)):
                raise No("a vector as a whole")
            return f"({v!r})"
        if o == "idx":
            b = a[0].a[0] if a[0].op == "deref" else a[0]
            if b.op == "sym" and isinstance(self.params.get(b.a[0]), (list, tuple)) and len(a) == 2 and a[1].op == "num":
                return repr(self.params[b.a[0]][int(a[1].a[0])])
            raise No("index")
        if o == "ret":
            n = a[0]
            if n not in SCALE or len(a) != 2 or a[1].op != "num":
                raise No(f"a value obtained from {n}")
            self.scale.add(n)
            return f"(D[{int(a[1].a[0])}]*{SCALE[n]})"
        if o == "phi":
            return f"S[{self.state(t)}]"
        if o == "sym" and a[0] == "$acc":
            return self.acc
        if o == "sym" and a[0] == "$i":
            return self.i
        if o == "fold":
            lo, hi = (self.const(x) for x in a[0].a[:2])
            if hi - lo > 8:
                raise No("long sum")
            body = a[2]
            ix = sorted({int(x.a[1].a[0]) for x in subterms(body) if x.op == "ret" and len(x.a) == 2 and x.a[1].op == "num"})
            acc = self.go(a[1])
            for k in range(int(lo), int(hi)):
                sub = Code(self.params, 0, self.scale)
                sub.lines, sub.n = self.lines, self.n
                sub.acc, sub.i, sub.state = acc, str(k), self.state
                m = {mk("ret", x.a[0], x.a[1]): mk("ret", x.a[0], num(self.folds + int(x.a[1].a[0]) - ix[0]))
                     for x in subterms(body) if x.op == "ret" and len(x.a) == 2} if ix else {}
                acc = sub.tmp(sub.go(subst(body, m) if m else body))
                self.n = sub.n
                if ix:
                    self.folds += ix[-1] - ix[0] + 1
            return acc
        if o == "call":
            if a[0] == "epsilon":
                return "2.220446049250313e-16"
            if a[0] in FUN:
                return self.tmp(f"{FUN[a[0]]}({','.join(self.go(x) for x in a[1:])})")
            raise No(f"{a[0]}()")
        if o == "ite":
            c = self.go(a[0])
            return self.tmp(f"({self.go(a[1])}) if {c} else ({self.go(a[2])})")
        x = [self.go(y) if isinstance(y, T) else None for y in a]
        if None in x:
            raise No(o)
        if o == "add":
            return self.tmp("+".join(x))
        if o == "mul":
            return self.tmp("*".join(x))
        if o == "neg":
            return self.tmp(f"-{x[0]}")
        if o == "div":
            return self.tmp(f"S_div({x[0]},{x[1]})")
        if o in ("usub", "sub"):
            return self.tmp(f"{x[0]}-({x[1]})")
        if o == "toint":
            return self.tmp(f"S_int({x[0]})")
        if o in ("lt", "le", "eq"):
            return self.tmp(f"({x[0]}{ {'lt': '<', 'le': '<=', 'eq': '=='}[o]}{x[1]})")
        if o in ("and", "or"):
            return self.tmp("(" + f" {o} ".join(x) + ")")
        if o in ("not", "lnot"):
            return self.tmp(f"(not {x[0]})")
        if o in ("f32", "tofloat"):
            return x[0]
        raise No(o)

    def const(self, t):
        c = Code(self.params, 0, set())
        c.state = None
        e = c.go(t)
        d = dict(ENV)
        exec("def f(D,S):\n" + "\n".join(c.lines) + f"\n return {e}", d)
        return int(d["f"]((), ()))

    def state(self, t):
        raise No("state of a loop")


def draws(events):
    return sum(1 for e in events if getattr(e, "name", None) in SCALE)


class Program:
    """the accepted outcomes of a sampler for one choice of parameters"""

    def __init__(self, outs, params):
        self.params, self.scale = params, set()
        self.outs, loops = [], {}
        for o in outs:
            if o.kind != "ret":
                continue
            for e in o.trace:
                if isinstance(e, LoopEv):
                    loops[e.line] = e
            self.outs.append(o)
        if not self.outs:
            raise No("no outcome")
        terms = [x for o in self.outs for x in [o.val] + list(o.facts.d)]
        if any(o.val is None or occurs(o.val, "uninit") for o in self.outs):
            raise No("an uninitialised value")
        phis = sorted({x for t in terms if isinstance(t, T) for x in subterms(t) if x.op == "phi"}, key=str)
        self.loop = None
        if phis:
            own = [e for e in loops.values() if any(h in phis for nx in e.nxt for h, _ in nx)]
            if len(own) != 1 or own[0].rng is not None:
                raise No("state carried by several loops")
            self.loop = own[0]
            heads = {h for nx in self.loop.nxt for h, _ in nx}
            if any(p not in heads for p in phis):
                raise No("a loop variable without a successor")
            self.phis = sorted({x for h in heads for x in subterms(h) if x.op == "phi"} | set(phis), key=str)
            o = self.outs[0]
            k = o.trace.index(self.loop)
            if any(isinstance(e, LoopEv) for e in o.trace[:k]):
                raise No("a loop before the loop with state")
            self.base = draws(o.trace[:k])
            per = {draws(t) for _, _, t in self.loop.alts} - {0}
            if len(per) > 1:
                raise No("iterations of different numbers of draws")
            self.per = max(per, default=0)
        self.ndraw = 0
        for t in terms:
            if isinstance(t, T):
                for x in subterms(t):
                    if x.op == "ret" and len(x.a) == 2 and isinstance(x.a[1], T) and x.a[1].op == "num":
                        self.ndraw = max(self.ndraw, int(x.a[1].a[0]) + 1)
        self.total = self.ndraw
        self.code = [self.function(o.facts.d, o.val) for o in self.outs]
        if self.loop:
            self.init = self.function({}, *[self.initial(p) for p in self.phis])
            self.alts = []
            for (k, fs, t), nx in zip(self.loop.alts, self.loop.nxt):
                m = dict(nx)
                self.alts.append((k, self.function(dict(fs)), self.function({}, *[m.get(p, p) for p in self.phis]) if k == "n" else None))
        for e in loops.values():
            if e.rng is not None:
                self.nested(e)

    def initial(self, p):
        t = p.a[-1]
        if not isinstance(t, T):
            raise No("a loop variable without initial value")
        return num(0) if t.op == "uninit" else t

    def nested(self, e):
        """a rejection inside an unrolled sum is accounted for only when it has no weight"""
        for k, fs, t in e.alts:
            for y in t:
                if isinstance(y, LoopEv):
                    for k2, fs2, t2 in y.alts:
                        if k2 == "n":
                            f, w = self.function(dict(fs2)), 0
                            for D in points(max(self.ndraw, 4), 500):
                                w += f(D, ()) is not None
                            if w > 2:
                                raise No("a rejection inside a sum")

    def function(self, facts, *vals):
        c = Code(self.params, self.ndraw, self.scale)
        if self.loop:
            c.state = self.phis.index
        for x, v in facts.items():
            if not contains(x, lambda y: y.op in ("ret", "phi")):
                n, memo = len(c.lines), dict(c.memo)
                try:
                    e = c.go(x)
                except No:
                    del c.lines[n:]
                    c.memo = memo
                    continue        # a condition on the arguments only, of valid arguments
            else:
                e = c.go(x)
            c.lines.append(f" if bool({e})!={v}: return None")
        e = ",".join(c.go(v) if isinstance(v, T) else repr(v) for v in vals)
        self.total = max(self.total, c.folds)
        d = dict(ENV)
        exec("def f(D,S):\n" + "\n".join(c.lines) + f"\n return ({e}{',' if e else ''})", d)
        return d["f"]

    def at(self, D):
        """value on a stream of draws; None when the stream is rejected"""
        if not self.loop:
            return self.end(D, ())
        S = self.init(D, ())
        for it in range(64):
            lo = self.base + it * self.per
            d = D[:self.base] + D[lo:lo + self.per] if self.per else D[:self.base]
            if len(d) < self.base + self.per:
                raise No("the stream is too short")
            take = [(k, nx) for k, f, nx in self.alts if f(d, S) is not None]
            if len(take) != 1:
                raise No("alternatives of an iteration overlap")
            k, nx = take[0]
            if k != "n":
                return self.end(d, S)
            S = nx(d, S)
        raise No("does not stop on a stream of draws")

    def end(self, D, S):
        r = [v for v in (f(D, S) for f in self.code) if v is not None]
        if len(r) > 1 and len(set(r)) > 1:
            raise No("outcomes overlap")
        return r[0][0] if r else None

    def width(self):
        return self.base + 40 * max(self.per, 1) if self.loop else self.total


def points(d, n):
    """deterministic points of the unit cube: an additive recurrence in low dimension, a hash otherwise"""
    if d == 0:
        yield ()
        return
    if d <= 3:
        g = 2.0
        for _ in range(60):
            g = (1 + g) ** (1.0 / (d + 1))
        al = [g ** -(j + 1) for j in range(d)]
        for i in range(n):
            yield tuple((0.5 + (i + 1) * a) % 1.0 for a in al)
        return
    import random
    r = random.Random(12345)
    for i in range(n):
        yield tuple(r.random() for _ in range(d))


# ---------------------------------------------------------------- laws
def gamma_cdf(a, x):
    if x <= 0:
        return 0.0
    if x == INF:
        return 1.0
    t = s = 1.0 / a
    k = a
    while abs(t) > 1e-14 * abs(s) and k < a + 5000:
        k += 1
        t *= x / k
        s += t
    return min(1.0, s * math.exp(a * math.log(x) - x - math.lgamma(a)))


def norm_cdf(z):
    return 0.5 * (1 + math.erf(z / math.sqrt(2)))


def steps(pmf):
    def cdf(x):
        return sum(pmf(k) for k in range(0, int(math.floor(x)) + 1)) if x >= 0 else 0.0
    return cdf


def poisson(m):
    return steps(lambda k: math.exp(-m + k * math.log(m) - math.lgamma(k + 1)))


def geometric(p):
    return steps(lambda k: p * (1 - p) ** k)


def lawtable(ints):
    if ints:
        yield "sampleUniform", 2, [(a, b) for a, b in ((0, 1), (0, 3), (-2, 4), (10, 15), (-7, -5))], \
            lambda a, b: (lambda x: min(1.0, max(0.0, (math.floor(x) - a + 1) / (b - a + 1)))), lambda a, b: list(range(a - 1, b + 1)), lambda a, b: (a, b)
        yield "sampleNormal", 2, [(0, 1), (3, 4), (-2, 9)], lambda m, v: (lambda x: norm_cdf((math.floor(x) + 0.5 - m) / math.sqrt(v))), \
            lambda m, v: [m + k for k in range(-5, 6)], lambda m, v: (-INF, INF)
    else:
        yield "sampleUniform", 2, [(0.0, 1.0), (-1.5, 2.0), (3.0, 3.25), (-8.0, -2.0)], lambda a, b: (lambda x: min(1.0, max(0.0, (x - a) / (b - a)))), \
            lambda a, b: [a + (b - a) * k / 8 for k in range(9)], lambda a, b: (a, b)
        yield "sampleNormal", 2, [(0.0, 1.0), (1.5, 0.25), (-2.0, 4.0)], lambda m, v: (lambda x: norm_cdf((x - m) / math.sqrt(v))), \
            lambda m, v: [m + math.sqrt(v) * z for z in (-2.2, -1.3, -0.6, -0.2, 0.1, 0.5, 1.1, 1.8, 2.4)], lambda m, v: (-INF, INF)
    yield "samplePoisson", 1, [(0.4,), (1.0,), (2.6,)], poisson, lambda m: list(range(7)), lambda m: (0, INF)
    yield "sampleExponential", 1, [(1.0,), (0.3,), (4.0,)], lambda r: (lambda x: 1 - math.exp(-r * x) if x > 0 else 0.0), \
        lambda r: [k / r for k in (0.1, 0.4, 0.9, 1.6, 2.8)], lambda r: (0, INF)
    yield "sampleGeometric", 1, [(0.5,), (0.2,), (0.75,)], geometric, lambda p: list(range(7)), lambda p: (0, INF)
    yield "sampleGamma", 2, [(1.0, 1.0), (0.5, 1.0), (0.7, 2.0), (2.0, 0.5), (1.5, 1.0), (2.3, 3.0), (3.0, 2.0)], \
        lambda k, r: (lambda x: gamma_cdf(k, x * r)), lambda k, r: [q / r for q in (0.1, 0.3, 0.6, 1.0, 1.7, 2.6, 4.0)], lambda k, r: (0, INF)


def categorical(m):
    for v in {1: [[1.0]], 2: [[0.3, 0.7], [0.9, 0.1], [0.5, 0.5], [0.0, 1.0], [1.0, 0.0]], 3: [[0.2, 0.3, 0.5], [0.6, 0.0, 0.4]], 4: [[0.4, 0.1, 0.2, 0.3], [0.0, 0.5, 0.0, 0.5]]}.get(m, []):
        yield v


def name(o):
    return o.loc.split("::")[-1] if isinstance(o.loc, str) else o.loc


def law(R, L, cls, f, key, vals, cdf, grid, support):
    w = where(f)
    try:
        outs = L.run(f)
    except Undecided as e:
        R.und(key, w, str(e))
        return
    params = {f"arg{i}": v for i, v in enumerate(vals)}
    when = ", ".join(f"{p['n']}={v}" for p, v in zip(f["params"], vals))
    try:
        p = Program(outs, params)
        n = acc = 0
        xs = grid
        count = [0] * len(xs)
        for D in points(p.width(), N):
            v = p.at(D)
            n += 1
            if v is None:
                continue
            if v != v:
                R.viol(key, w, f"draws accepted give a value that is not a number when {when}")
                return
            acc += 1
            for i, x in enumerate(xs):
                if v <= x + 1e-12:
                    count[i] += 1
        if not acc:
            R.viol(key, w, f"no draw is ever accepted when {when}")
            return
        tol = (0.012 if p.width() <= 3 else 0.03) * max(1.0, math.sqrt(n / acc) if p.width() > 3 else 1.0)
        for x, c in zip(xs, count):
            if abs(c / acc - cdf(x)) > tol:
                R.viol(key, w, f"the law of the returned value puts {c / acc:.3f} of its mass up to {fmt(x)}, the law it is named after {cdf(x):.3f}, when {when}")
                return
        edge(R, key, w, p, support, when)
        R.ok(key, w, f"{acc} of {n} draw streams, {len(xs)} points of the distribution function when {when}")
    except No as e:
        R.und(key, w, f"{e}")
    except (ArithmeticError, ValueError, TypeError, RecursionError, IndexError) as e:
        R.und(key, w, f"{type(e).__name__}: {e}")


def edge(R, key, w, p, support, when):
    """a single draw at the end of its range, the others inside"""
    if p.loop:
        return
    lo, hi = support
    for i in range(p.ndraw):        # the draws of an unrolled sum have their rejection inside the sum
        for e in (0.0, 1.0):
            for D in points(p.width(), 16):
                v = p.at(D[:i] + (e,) + D[i + 1:])
                if v is not None and v == v and not (lo - 1e-9 <= v <= hi + 1e-9 and v not in (INF, -INF)):
                    R.viol(key, w, f"a draw at the {'lower' if e == 0 else 'upper'} end of its range gives {v}, outside the support, when {when}")
                    return


# ---------------------------------------------------------------- distributions hand their own parameters to one draw per component
def isample(c):
    return c["n"].startswith("sample") and "Randomizer" in (c.get("cls") or "")


def sampled(R, cls, L, f, kind):
    key, w = f"{cls}::getSample()", where(f)
    try:
        outs = [o for o in L.run(f) if o.kind == "ret"]
        if len(outs) != 1:
            raise No("several outcomes")
        v = outs[0].val
        dr = sorted({x for x in subterms(v) if x.op == "ret" and str(x.a[0]).startswith("sample")}, key=lambda t: t.id)
        if not dr:
            raise No("no draw of the randomizer is recognised")
        other = [x for x in subterms(v) if x.op in ("ret", "phi", "mut", "out") and x not in dr]
        if other:
            raise No(f"depends on {show(other[0])[:60]}")
        msg, n = None, 0
        for i in range(24):
            given = model(cls, kind, i)
            d = Draws(L, R, v, dr, given, i)
            msg = {"normal": normal_law, "uniform": uniform_law, "gamma": gamma_law}[kind](d)
            n += 1
            if msg:
                break
        if msg:
            R.viol(key, w, msg)
        else:
            R.ok(key, w, f"{len(dr)} draws on {n} parameter models")
    except (No, Undecided, Open, Outside, Bottom) as e:
        R.und(key, w, str(e)[:160])


def th(n):
    return fld(mk("deref", sym("this")), n)


def model(cls, kind, i):
    import random
    r = random.Random(i)
    d = {}
    m = re.search(r"<(?:\w+, )?(\d+)>", cls)
    k = int(m.group(1)) if m else 1
    q = lambda a, b: Fraction(r.randint(a * 8, b * 8), 8)
    d["k"] = k
    if kind == "normal":
        d["mean"] = [q(-4, 4) for _ in range(k)]
        a = [[q(1, 3) if x == y else (q(-2, 2) if y < x else 0) for y in range(k)] for x in range(k)]
        d["cov"] = [[sum(a[x][j] * a[y][j] for j in range(k)) for y in range(k)] for x in range(k)]
    elif kind == "uniform":
        ints = "int" in cls
        d["min"] = [Fraction(r.randint(-6, 6)) if ints else q(-4, 4) for _ in range(k)]
        d["max"] = [x + (r.randint(1, 9) if ints else q(1, 4)) for x in d["min"]]
        d["ints"] = ints
    else:
        d["shape"], d["rate"] = q(1, 5), q(1, 4)
    return d


class Draws:
    """the returned value as a function of the values drawn, on one model of the object"""

    def __init__(self, L, R, v, dr, m, seed):
        self.L, self.v, self.dr, self.m, self.seed = L, v, dr, m, seed
        g, self.llt = {}, None
        k = m["k"]
        col = lambda xs: M(k, 1, list(xs)) if k > 1 else xs[0]
        if "mean" in m:
            flat = [x for row in m["cov"] for x in row]
            C = M(k, k, flat) if k > 1 else flat[0]
            g[th("mMean")] = col(m["mean"])
            g[th("mCovariance")] = g[th("mVariance")] = C
            I = Interp(1, {}, "mix")
            if k == 1:
                g[th("mStandardDeviation")] = math.sqrt(flat[0])
                g[th("mPrecision")] = 1 / flat[0]
            else:
                g[th("mPrecision")] = I.inv(C)
        elif "min" in m:
            g[th("mMinSupport")], g[th("mMaxSupport")] = col(m["min"]), col(m["max"])
        else:
            g[th("mShape")], g[th("mInvScale")] = m["shape"], m["rate"]
        self.g = g
        tr = {x for x in subterms(v) if x.op == "fld" and x not in g}
        for t in tr:
            n = str(t.a[1]) if len(t.a) > 1 else ""
            if n == "mTransformation" and "cov" in m:
                g[t] = self.llt = Tok("ctor", "LLT<", g[th("mCovariance")])
        self.args = []
        for x in dr:
            I = self.I({})
            self.args.append((str(x.a[0]), [self.num(I(y)) for y in x.a[1:-1]]))

    def num(self, v):
        v = v.e[0] if isinstance(v, M) and len(v.e) == 1 else v
        if not isn(v):
            raise No("a parameter of the draw is not known")
        return v

    def I(self, z):
        g = dict(self.g)
        g.update(z)
        I = Interp(1 + self.seed, g, "mix")
        if self.llt is not None:
            I.factor[self.llt.k] = self.g[th("mCovariance")]
        return I

    def at(self, zs):
        r = self.I(dict(zip(self.dr, zs)))(self.v)
        xs = vec(r) if isinstance(r, M) else [r]
        if not all(isn(x) for x in xs):
            raise No("the sample is not a number")
        return [float(x) for x in xs]

    def affine(self):
        n = len(self.dr)
        b = self.at([0] * n)
        A = [[p - q for p, q in zip(self.at([1 if j == i else 0 for j in range(n)]), b)] for i in range(n)]
        t = self.at([2 + i for i in range(n)])
        for r, v in enumerate(t):
            if abs(v - b[r] - sum(A[i][r] * (2 + i) for i in range(n))) > 1e-7 * (1 + abs(v)):
                raise No("not an affine function of the draws")
        return A, b


def close(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def normal_law(d):
    A, b = d.affine()
    if any(n != "sampleNormal" or len(a) != 2 for n, a in d.args):
        raise No("draws of another law")
    k, m = d.m["k"], d.m
    mu = [b[r] + sum(A[i][r] * float(d.args[i][1][0]) for i in range(len(A))) for r in range(k)]
    for r in range(k):
        if not close(mu[r], float(m["mean"][r])):
            return f"component {r} of the sample has mean {fmt(mu[r])}, the distribution {fmt(m['mean'][r])}"
        for c in range(k):
            s = sum(A[i][r] * A[i][c] * float(d.args[i][1][1]) for i in range(len(A)))
            if not close(s, float(m["cov"][r][c])):
                return f"components {r} and {c} of the sample have covariance {fmt(s)}, the distribution {fmt(m['cov'][r][c])}"


def uniform_law(d):
    A, b = d.affine()
    if any(n != "sampleUniform" or len(a) not in (0, 2) for n, a in d.args):
        raise No("draws of another law")
    m, used = d.m, set()
    for r in range(m["k"]):
        own = [i for i in range(len(A)) if abs(A[i][r]) > 1e-9]
        if len(own) != 1:
            return f"component {r} of the sample is made of {len(own)} draws"
        i = own[0]
        if i in used:
            return f"component {r} of the sample uses the draw of another component"
        used.add(i)
        lo, hi = d.args[i][1] or (0, 1)
        e = sorted((b[r] + A[i][r] * float(lo), b[r] + A[i][r] * float(hi)))
        if not (close(e[0], float(m["min"][r])) and close(e[1], float(m["max"][r]))) or m["ints"] and not close(abs(A[i][r]), 1):
            return f"component {r} of the sample lies uniformly in [{fmt(e[0])}, {fmt(e[1])}], the support is [{fmt(m['min'][r])}, {fmt(m['max'][r])}]"


def gamma_law(d):
    A, b = d.affine()
    if len(d.args) != 1 or d.args[0][0] != "sampleGamma" or len(d.args[0][1]) != 2:
        raise No("draws of another law")
    k, r = d.args[0][1]
    if not close(b[0], 0) or A[0][0] <= 0:
        return "the sample is not proportional to its draw"
    if not close(float(k), float(d.m["shape"])):
        return f"a sample of shape {fmt(k)} is drawn from a distribution of shape {fmt(d.m['shape'])}"
    if not close(float(r) / A[0][0], float(d.m["rate"])):
        return f"a sample of inverse scale {fmt(float(r) / A[0][0])} is drawn from a distribution of inverse scale {fmt(d.m['rate'])}"


def check(R):
    R.rule("each sampler of Randomizer, taken as a function of the uniform draws it consumes, with the draws it rejects left out, pushes the uniform "
           "law on the draws forward to the law it is named after (quadrature of the distribution function of the extracted transform at fixed "
           "points, for several parameters); a draw at the end of its range stays in the support")
    R.rule("getSample() of a distribution hands its own current parameters to the randomizer: mean and covariance of the affine map of the normal "
           "draws, one draw of its own support per uniform component, shape and inverse scale of the gamma draw")
    m = load("lib")
    L = Lib(m, R)
    any_ = 0
    for cls in L.classes(NS + r"Randomizer<.*>"):
        ints = re.search(r"<(int|long|short|unsigned)", cls) is not None
        for nm, k, pars, cdf, grid, sup in lawtable(ints):
            for f in L.methods(cls, nm, k):
                R.functions.add(f["id"] if "id" in f else f["q"])
                for v in pars:
                    any_ += 1
                    law(R, L, cls, f, f"{cls}::{nm}({', '.join(map(str, v))})", v, cdf(*v), grid(*v), sup(*v))
        for f in L.methods(cls, "sampleCategorical", 1):
            dim = int(re.search(r", (-?\d+)>", cls).group(1))
            for v in categorical(dim):
                any_ += 1
                cum = [sum(v[:i + 1]) for i in range(len(v))]
                law(R, L, cls, f, f"{cls}::sampleCategorical({v})", (v,), lambda x: cum[min(int(x), len(cum) - 1)], list(range(len(v))), (0, len(v) - 1))
        for f in L.methods(cls, "setSeed", 1):
            seeding(R, L, cls, f)
    L2 = Lib(m, R, opaque=isample, fresh=isample)
    for pat, kind in ((r"NormalDistribution<.*>", "normal"), (r"UniformDistribution<.*>", "uniform"), (r"GammaDistribution<.*>", "gamma")):
        for cls in L2.classes(NS + pat):
            for f in L2.methods(cls, "getSample", 0):
                any_ += 1
                sampled(R, cls, L2, f, kind)
    one = lambda c: c["n"] == "getSample"
    L3 = Lib(m, R, opaque=one, fresh=one)
    for cls in L3.classes(NS + r"SampleDistribution<.*>"):
        for f in L3.methods(cls, "getSamples", 2):
            any_ += 1
            several(R, cls, L3, f)
    if not any_:
        R.lost("samplers")


def several(R, cls, L, f):
    """getSamples(samples, n) leaves exactly n samples, each from a draw of its own"""
    key, w = f"{cls}::getSamples()", where(f)
    a = L.cargs(f, "x")
    count = lambda t: sum(1 for e in t if getattr(e, "name", None) == "getSample")
    try:
        outs = [o for o in L.run(f, args=a) if o.kind == "ret"]
        for n, old in product(range(4), ([], [7.0, 8.0, 9.0])):
            when = f"{n} samples are asked for and the container has {len(old)}"
            box = a[0][0][1] if isinstance(a[0][0][1], T) else sym(a[0][0][1])
            g = {box: Seq(list(old)), mk("deref", box): Seq(list(old)), a[1]: n}
            for o in outs:
                L_ = L.E.read(o.st, a[0])
                g.update({x: 5.0 for x in subterms(L_) if x.op == "ret" and x.a[0] == "getSample"})
            I = Interp(1, g, "mix")
            o = outcome(outs, I)
            got = I(L.E.read(o.st, a[0]))
            if not isinstance(got, Seq):
                raise No("the container is not known")
            if not equal(got, Seq([5.0] * n)):
                R.viol(key, w, f"leaves {fmt(got)} (5.0 is a fresh sample) when {when}")
                return
            drawn = count(o.trace)
            for e in o.trace:
                if isinstance(e, LoopEv):
                    if e.rng is None or e.rng.op != "range" or any(isinstance(y, LoopEv) or k != "n" for k, _, t in e.alts for y in t):
                        raise No("a loop whose number of iterations is not known")
                    ivs = {x for _, fs, _ in e.alts for t, _ in fs for x in subterms(t) if x.op == "iv"}
                    for i in range(int(I(e.rng.a[0])), int(I(e.rng.a[1]))):
                        J = Interp(1, {**g, **{x: i for x in ivs}}, "mix")
                        c = {count(t) for _, fs, t in e.alts if all(J.bool(x) == v for x, v in fs)}
                        if len(c) != 1:
                            raise No("the alternative of an iteration is not known")
                        drawn += c.pop()
            if drawn != n:
                R.viol(key, w, f"makes {drawn} draws when {when}")
                return
        R.ok(key, w, "8 models")
    except (No, Undecided, Open, Outside, Bottom, Ambiguous) as e:
        R.und(key, w, str(e)[:160])


def seeding(R, L, cls, f):
    key, w = f"{cls}::setSeed", where(f)
    try:
        outs = [o for o in L.run(f) if o.kind == "ret"]
    except Undecided as e:
        R.und(key, w, str(e))
        return
    for o in outs:
        ev = [e for e in o.trace if getattr(e, "name", None) in ("srandom", "srand", "srand48")]
        if not ev:
            R.viol(key, where(f, o.line), "does not seed the generator")
            return
        if not any(contains(a, lambda t: t.op == "sym" and t.a[0] == "arg0") for a in ev[-1].args if isinstance(a, T)):
            R.viol(key, where(f, o.line), "seeds the generator with something other than its argument")
            return
    R.ok(key, w, "seeds the generator with its argument")
