"""C22 predictions are judged by the model that is estimated."""
import hashlib
import math

from sa.engine import short
from . import err
from .cal import *

N = 160


def check(R):
    R.rule("for every measurement buffer the residuals the predictor evaluates are those the batch receives: same class, same arguments, same admission tests on every path of one iteration")
    R.rule("state carried from one measurement to the next is the same in both")
    R.rule("every judged measurement appends exactly one entry to each of its prediction records: the prediction with its time, the error vector of all its residuals and the sum of their squared errors")
    for c in calibrators(R):
        for f, e in c.undecided.values():
            R.und(f"{c.short}/{f['n']}/summary", where(f), e)
        closers = c.having("addErrorTerm", 0)
        preds = c.having("evaluateError", 0)
        if not closers or not preds:
            R.lost(f"{c.short}: the method that forms a batch / predicts")
            continue
        for pf, pos in preds:
            pl = table(c, pos, "evaluateError")
            for af, aos in closers:
                al = table(c, aos, "addErrorTerm")
                for b in sorted(set(al) | set(pl)):
                    key = f"{c.short}/{b}"
                    if b not in pl:
                        R.viol(key + "/pair", where(af, al[b][0].line), f"measurements of {b} are estimated but never predicted by {pf['n']}")
                    elif b not in al:
                        R.viol(key + "/pair", where(pf, pl[b][0].line), f"measurements of {b} are predicted but never estimated by {af['n']}")
                    else:
                        for la in al[b]:
                            for lp in pl[b]:
                                pair(R, c, key, af, pf, la, lp)
            owner = {}
            for b in pl:
                for lp in pl[b]:
                    for n in records(R, c, f"{c.short}/{b}/records", pf, lp) or ():
                        owner.setdefault(n, {}).setdefault(b, lp)
            for n, bs in owner.items():
                R.result(len(bs) == 1, f"{c.short}/{n}/owner", where(pf, list(bs.values())[-1].line), f"{n} records the predictions of " + " and of ".join(sorted(bs)))


def table(c, outs, ev):
    """buffer -> distinct loops over it in which the event occurs directly"""
    r = {}
    for o in outs:
        for l, up in loops(o.trace):
            if not any(not isinstance(e, LoopEv) and e.name == ev for k, fs, t in l.alts for e in t):
                continue
            b = c.buffer_of(l.rng) if l.rng is not None else None
            if b is None:
                for e, fs in reversed(up):
                    b = b or (c.buffer_of(e.rng) if e.rng is not None else None)
            if b is None:
                b = "?"
            x = alts(l, ev)
            if not any(alts(y, ev) == x for y in r.get(b, [])):
                r.setdefault(b, []).append(l)
    return r


def norm_alts(l, ev):
    """[(facts, residuals, carried, line)] of one iteration in canonical form"""
    out = []
    cn = Canon()
    for (k, fs, t), nx in zip(l.alts, l.nxt or [()] * len(l.alts)):
        facts = tuple((cn(a), v) for a, v in fs)
        res, line = [], l.line
        for e in t:
            if isinstance(e, LoopEv) or e.name != ev:
                continue
            x = e.args[0] if ev == "addErrorTerm" else e.recv
            res.append(cn(x) if isinstance(x, T) else x)
            line = e.line
        out.append((facts, tuple(res), dict(nx), line))
    # state carried between iterations that residuals or guards depend on
    fin = []
    used = sorted(cn.carried, key=lambda x: x[1].id)
    for facts, res, nx, line in out:
        car = {}
        for ph, r in used:
            car[r] = cn(nx.get(ph, ph))
        fin.append((facts, res, car, line))
    return fin


CACHE = {}


def alts(l, ev):
    k = (id(l), ev)
    if k not in CACHE:
        CACHE[k] = (l, norm_alts(l, ev))
    return [(f, r, tuple(sorted(((k.id, v.id if isinstance(v, T) else v) for k, v in c.items())))) for f, r, c, _ in CACHE[k][1]]


class _F:
    def __init__(self, fs):
        self.d = dict(fs)


def pair(R, c, key, af, pf, la, lp):
    A, P = norm_alts(la, "addErrorTerm"), norm_alts(lp, "evaluateError")
    wa, wp = where(af, la.line), where(pf, lp.line)
    carried = set()
    for _, _, car, _ in A + P:
        carried |= set(car)
    opens, seen, bad = {}, set(), None
    edge = boundaries(A + P)
    for i in range(N + 12 * len(edge)):
        I = Interp(7919 * i + 5, None, ("gen", "mix", "pos")[i % 3])
        try:
            if i >= N:
                x, y = edge[i % len(edge)]
                I = Interp(7919 * i + 5, {x: I(y)}, ("gen", "mix", "pos")[i % 3])
            xa = [a for a in A if holds(_F(a[0]), I)]
            xp = [p for p in P if holds(_F(p[0]), I)]
            if len(xa) != 1 or len(xp) != 1:
                if any(holds(_F(a[0]), I) is None for a in A + P):
                    raise Open("undecided admission test")
                if len(xa) > 1 or len(xp) > 1 or not xa or not xp:
                    raise Open(f"{len(xa)}/{len(xp)} alternatives")
            a, p = xa[0], xp[0]
            seen.add((A.index(a), P.index(p)))
            d = compare(I, a, p, carried)
            if d:
                bad = (d, a, p, I)
                break
        except (Open, Bottom) as e:
            opens[str(e)[:100]] = opens.get(str(e)[:100], 0) + 1
    if bad:
        d, a, p, I = bad
        R.viol(f"{key}/residual", where(pf, p[3]), f"{d}; estimated by {where(af, a[3])}, when {desc(I)}"[:900])
        return
    if structurally(A, P):
        R.ok(f"{key}/residual", wp, f"{len(A)} paths of one measurement agree with {af['n']} (identical summaries)")
    elif {x for x, _ in seen} == set(range(len(A))) and {y for _, y in seen} == set(range(len(P))):
        R.ok(f"{key}/residual", wp, f"agrees with {af['n']} on every path ({len(seen)} pairs of paths)")
    else:
        R.und(f"{key}/residual", wp, f"paths compared {sorted(seen)} of {len(A)}x{len(P)}: {opens}")


def boundaries(X):
    """pairs of quantities an admission test compares, the first freely chosen"""
    r = []
    for fs, *_ in X:
        for a, v in fs:
            for x in subterms(a):
                if x.op in ("lt", "eq") and len(x.a) == 2 and all(isinstance(y, T) for y in x.a):
                    for p, q in (x.a, x.a[::-1]):
                        if p.op in ("fld", "sym", "call") and not contains(q, lambda y: y is p) and (p, q) not in r:
                            r.append((p, q))
                            break
    return r


def structurally(A, P):
    f = lambda X: {(frozenset((a.id, v) for a, v in fs), tuple(getattr(x, "id", x) for x in r), frozenset((k.id, getattr(v, "id", v)) for k, v in c.items())) for fs, r, c, _ in X}
    return f(A) == f(P)


def compare(I, a, p, carried):
    if len(a[1]) != len(p[1]):
        return f"{len(p[1])} residuals are evaluated where {len(a[1])} are estimated"
    left = list(p[1])
    for x in a[1]:
        vx = val(I, x)
        for y in left:
            if same(vx, val(I, y)):
                left.remove(y)
                break
        else:
            return difference(I, x, left)
    for k in carried:
        x, y = a[2].get(k), p[2].get(k)
        if x is None or y is None:
            continue
        if not same(val(I, x), val(I, y)):
            return "what is carried to the next measurement differs: " + show(y)[:150] + " instead of " + show(x)[:150]
    return None


def val(I, t):
    if isinstance(t, T) and t.op == "new":
        return (t.a[0], tuple(arg(I, x) for x in t.a[1]))
    return ("", (arg(I, t),))


def arg(I, t):
    g = geometric(I, t) if isinstance(t, T) and t.op in ("call", "ctor", "neg", "add", "mul") else None
    return I(t) if g is None else g[1]


def leaf(I, t, n):
    if hasattr(I, "leafhook"):
        r = I.leafhook(t, n)
        if r is not None:
            return r
    h = hashlib.sha256(repr(ck(I(t))).encode()).digest()
    return [int.from_bytes(h[4 * i:4 * i + 4], "big") / 2 ** 31 - 1 for i in range(n)]


def prod(a, b):
    return M(a.r, b.c, [sum(a.e[i * a.c + k] * b.e[k * b.c + j] for k in range(a.c)) for i in range(a.r) for j in range(b.c)])


def rotation(q):
    n = math.sqrt(sum(x * x for x in q)) or 1.0
    x, y, z, w = [v / n for v in q]
    return M(3, 3, [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                    2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                    2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)])


def transpose(a):
    return M(a.c, a.r, [a.e[i * a.c + j] for j in range(a.c) for i in range(a.r)])


def scale(a, k):
    return M(a.r, a.c, [k * x for x in a.e])


def geometric(I, t):
    """value of a back-end expression, its leaves chosen freely: (kind, value), kind one of R(otation) V(ector) S(calar) T(ransformation);
    None when not one"""
    if not isinstance(t, T):
        return None
    if t in getattr(I, "geovals", ()):
        return I.geovals[t]
    if t.op == "phi" and t in getattr(I, "carried", ()):
        return I.carried[t][1] if I.carried[t][0] == "geo" else None
    if t.op == "neg":
        g = geometric(I, t.a[0])
        return None if g is None or g[0] not in "VS" else (g[0], scale(g[1], -1) if g[0] == "V" else -g[1])
    if t.op == "ctor":
        n = short(str(t.a[0]))
        a = t.a[1:]
        if n == "EuclideanExpression" and len(a) == 1:
            g = geometric(I, a[0])
            if g is not None:
                return g if g[0] == "V" else None
            v = I.leafhook(a[0], 3) if hasattr(I, "leafhook") else None
            if v is not None:
                return "V", M(3, 1, v)
            v = I(a[0])
            if isinstance(v, M) and len(v.e) == 3 and all(isn(x) for x in v.e):
                return "V", M(3, 1, [float(x) for x in v.e])
            return "V", M(3, 1, leaf(I, a[0], 3))
        if n == "RotationExpression" and len(a) == 1:
            g = geometric(I, a[0])
            return g if g is not None and g[0] == "R" else None if g is not None else ("R", rotation(leaf(I, a[0], 4)))
        if n in ("ScalarExpression", "GenericScalarExpression") and len(a) == 1:
            g = geometric(I, a[0])
            if g is not None:
                return g if g[0] == "S" else None
            v = I(a[0])
            return "S", float(v) if isn(v) else leaf(I, a[0], 1)[0]
        if n == "TransformationExpression" and len(a) == 2:
            r, v = geometric(I, a[0]), geometric(I, a[1])
            if r is None or v is None or r[0] + v[0] != "RV":
                return None
            C, p = r[1], v[1]
            return "T", M(4, 4, [*C.e[0:3], p.e[0], *C.e[3:6], p.e[1], *C.e[6:9], p.e[2], 0, 0, 0, 1])
        return None
    if t.op != "call":
        return None
    n, a = t.a[0], t.a[1:]
    if n == "adapt" and len(a) == 1:
        return "R", rotation(leaf(I, a[0], 4))
    g = [geometric(I, x) for x in a]
    if not g or any(x is None for x in g):
        return None
    k, v = "".join(x[0] for x in g), [x[1] for x in g]
    if n == "inverse":
        if k == "R":
            return "R", transpose(v[0])
        if k == "T":
            C = transpose(M(3, 3, [v[0].e[4 * i + j] for i in range(3) for j in range(3)]))
            p = scale(prod(C, M(3, 1, [v[0].e[3], v[0].e[7], v[0].e[11]])), -1)
            return "T", M(4, 4, [*C.e[0:3], p.e[0], *C.e[3:6], p.e[1], *C.e[6:9], p.e[2], 0, 0, 0, 1])
    if n == "op*":
        if k in ("RR", "RV", "TT"):
            return k[1], prod(v[0], v[1])
        if k == "VS":
            return "V", scale(v[0], v[1])
        if k == "SV":
            return "V", scale(v[1], v[0])
        if k == "SS":
            return "S", v[0] * v[1]
    if n in ("op+", "op-"):
        s = 1 if n == "op+" else -1
        if k == "VV":
            return "V", M(3, 1, [x + s * y for x, y in zip(v[0].e, v[1].e)])
        if k == "SS":
            return "S", v[0] + s * v[1]
    if n == "cross" and k == "VV":
        (x, y, z), (p, q, r) = v[0].e, v[1].e
        return "V", M(3, 1, [y * r - z * q, z * p - x * r, x * q - y * p])
    return None


def same(x, y):
    return x[0] == y[0] and len(x[1]) == len(y[1]) and all(ck(a) == ck(b) or equal(a, b) for a, b in zip(x[1], y[1]))


def difference(I, x, left):
    vx = val(I, x)
    for y in left:
        vy = val(I, y)
        if vx[0] != vy[0] or len(vx[1]) != len(vy[1]):
            continue
        k = [i for i, (a, b) in enumerate(zip(vx[1], vy[1])) if not (ck(a) == ck(b) or equal(a, b))]
        if k and isinstance(y, T):
            return f"argument {k[0] + 1} of {str(vx[0]).split('::')[-1]} is {show(y.a[1][k[0]])[:220]} instead of {show(x.a[1][k[0]])[:220]}"
    return "no evaluated residual corresponds to " + show(x)[:200]


# --------------------------------------------------------------------- records
def records(R, c, key, pf, lp):
    recs = {}
    for n in c.seqs:
        b = this(n)
        for nx in lp.nxt or ():
            for ph, v in nx:
                if ph.op == "phi" and (ph.a[2] is b or contains(ph.a[2], lambda x: x is b)) and v is not ph:
                    recs.setdefault(n, set()).add(ph)
    w = where(pf, lp.line)
    if not recs:
        R.und(key, w, "no prediction record")
        return
    kinds = set()
    for (k, fs, t), nx in zip(lp.alts, lp.nxt):
        judged = [e for e in t if not isinstance(e, LoopEv) and e.name == "evaluateError"]
        nx = dict(nx)
        for n, phs in recs.items():
            for ph in phs:
                v = nx.get(ph, ph)
                cnt, elems = appended(v, ph)
                line = judged[-1].line if judged else lp.line
                if cnt is None:
                    R.und(f"{key}/{n}", where(pf, line), show(v)[:120])
                    continue
                want = 1 if judged else 0
                R.result(cnt == want, f"{key}/{n}", where(pf, line), f"{cnt} entries are appended to {n} for a measurement with {len(judged)} judged residuals")
                if want:
                    kinds.add(kind(c.fields[n]))
                if cnt == 1 and want and kind(c.fields[n]) == "prediction":
                    predicted(R, c, f"{key}/{n}", pf, line, elems[0], judged)
                if cnt == 1 and want:
                    content(R, c, f"{key}/{n}/content", pf, line, n, elems[0], judged)
    for k in ("prediction", "error vector", "squared error"):
        R.result(k in kinds, f"{key}/{k}", w, f"the {k} of a judged measurement " + ("is recorded" if k in kinds else "is not recorded with the other predictions of its sensor"))
    return recs


def kind(t):
    return "prediction" if re.search(r"vector<(?:std::)?pair<", t) else "error vector" if "Eigen::" in t else "squared error" if "double" in t else t


def appended(v, ph):
    """(number of appends, appended values) of a record"""
    el = []
    while True:
        if v is ph:
            return len(el), el
        if v.op == "mut" and v.a[0] in ("push_back", "emplace_back"):
            el.append(v.a[2])
            v = v.a[1]
        elif v.op == "upd" and len(v.a[1]) == 1:
            x = v.a[2]
            if x.op == "mut" and x.a[0] in ("push_back", "emplace_back") and x.a[1].op == "idx" and x.a[1].a[1:] == v.a[1]:
                el.append(x.a[2])
                v = v.a[0]
                continue
            return None, el
        else:
            return None, el


class RI(Interp):
    """every residual of the iteration has its own error vector and squared error"""
    judged = ()

    def op_ret(self, t, n, *a):
        if n == "evaluateError":
            for i, e in enumerate(self.judged):
                if contains(a[0], lambda x: x is e.recv) or a[0] is e.recv:
                    return self.draw("f", "squared error", i)
        return Interp.op_ret(self, t, n, *a)

    def op_call(self, t, n, *a):
        if n == "error" and len(a) == 1:
            for i, e in enumerate(self.judged):
                if a[0].op == "mut" and a[0].a[0] == "evaluateError" and contains(a[0].a[1], lambda x: x is e.recv):
                    return M(3, 1, [self.draw("f", "error", i, k) for k in range(3)])
        return Interp.op_call(self, t, n, *a)


def ypr(C):
    """yaw, pitch and roll of a rotation matrix (the same contract wherever it is taken)"""
    e = [float(x) for x in C.e]
    return M(3, 1, [math.atan2(e[3], e[0]), math.atan2(-e[6], math.hypot(e[7], e[8])), math.atan2(e[7], e[8])])


KNOWN_FN = {"toValue", "toScalar", "toEuclidean", "toRotationMatrix", "getValue", "toTransformationMatrix", "rotationMatrixToParameters", "error", "sqrt",
            "pow", "abs", "fabs", "atan", "atan2", "sin", "cos", "tan", "exp", "log", "hypot", "copysign", "norm", "squaredNorm", "dot", "cross", "transpose",
            "head", "tail", "segment", "inverse", "op*", "op+", "op-", "x", "y", "z", "square"}


def plain(b):
    """the value is made of expression values by known functions only (others are uninterpreted: no comparison)"""
    if isinstance(b, tuple):
        return all(plain(x) for x in b)
    if not isinstance(b, T):
        return True
    if b.op in ("call", "ret"):
        if b.a[0] not in KNOWN_FN:
            return False
        if b.a[0] in ("toValue", "toScalar", "toEuclidean", "toRotationMatrix", "getValue", "toTransformationMatrix", "error"):
            return True
    if b.op in ("fld", "new"):
        return True
    if b.op in ("out", "loop", "phi", "fold", "setrange", "mut"):
        return False
    return all(plain(x) for x in b.a)


class PI(RI):
    """values of expressions and design variables at the leaves of the residuals' arguments"""
    errs = None

    def op_call(self, t, n, *a):
        if n == "error" and len(a) == 1 and self.errs is not None:
            if any(y.op == "new" and y.a[:2] == self.errs[0].a[:2] for y in subterms(a[0])):
                return M(len(self.errs[1]), 1, self.errs[1])
            raise Open("error vector of another residual")
        if n in ("toValue", "toScalar", "toEuclidean", "toRotationMatrix", "getValue", "toTransformationMatrix") and len(a) == 1:
            g = geometric(self, a[0])
            if n == "toTransformationMatrix" and g is not None and g[0] == "T":
                return g[1]
            if g is None and n == "toScalar":
                return leaf(self, a[0].a[0] if a[0].op == "deref" else a[0], 1)[0]
            if g is not None and g[0] in "RVS":
                return g[1]
        return RI.op_call(self, t, n, *a)

    def op_ctor(self, t, cls, *a):
        if short(str(cls)) == "Transformation" and len(a) == 1:
            v = self(a[0])
            if isinstance(v, M) and (v.r, v.c) == (4, 4):
                return v
        return RI.op_ctor(self, t, cls, *a)

    def fn(self, n, v):
        if n == "rotationMatrixToParameters" and isinstance(v[-1], M) and all(isn(x) for x in v[-1].e):
            return ypr(v[-1])
        if n in ("hypot", "copysign") and len(v) == 2 and all(isn(x) for x in v):
            return getattr(math, n)(float(v[0]), float(v[1]))
        return RI.fn(self, n, v)


class EI(err.DI):
    def fn(self, n, v):
        if n == "rotationMatrixToParameters" and isinstance(v[-1], M) and all(isn(x) for x in v[-1].e):
            return ypr(v[-1])
        return err.DI.fn(self, n, v)


def errclass(c, cls):
    x = c.__dict__.setdefault("errclasses", {})
    if cls not in x:
        x[cls] = None
        for b in c.L.m.bases(cls):
            y = re.fullmatch(r"aslam::backend::ErrorTermFs<(\d+)>", b)
            if y:
                x[cls] = err.ErrCls(c.L, c.group, cls, int(y.group(1)))
    return x[cls]


def fed(E, c, cts):
    """member -> position of the constructor argument it takes"""
    co = [o for o in c.L.run(cts) if o.kind == "ret"]
    r = {}
    for n, f, o in c.L.m.all_fields(E.cls):
        vs = {c.L.rd(o.st, (n,)) for o in co}
        v = vs.pop() if len(vs) == 1 else None
        if not isinstance(v, T):
            continue
        for k, pr in enumerate(cts["params"]):
            if contains(v, lambda y: y is sym(f"arg{k}")) and v.op in ("fld", "deref", "sym", "ctor"):
                r[n] = k
    return r


def residual_at(c, E, args):
    """error vector of a residual built from the arguments"""
    cts = [f for f in E.ctors() if len(f["params"]) >= len(args) and all("dflt" in p for p in f["params"][len(args):])]
    fe = E.named("evaluateErrorImplementation", 0)
    if len(cts) != 1 or fe is None:
        raise Open("constructor of " + E.short)
    J = EI(7, None, "gen")
    J.given = {}
    args = list(args) + [p["dflt"] for p in cts[0]["params"][len(args):]] if cts else args
    if not hasattr(E, "fed"):
        E.fed = fed(E, c, cts[0])
    for n, k in E.fed.items():
        if n in E.src:
            for t in E.leaf_terms(E.src[n]):
                J.given[t] = args[k]
        else:
            J.given[E.member(n)] = args[k]
    o = outcome(E.outs(fe), J)
    evs = E.residual(o)
    if not evs:
        raise Open("publication")
    r = J(err.peel(evs[-1].args[0]))
    r = r if isinstance(r, M) else M(1, 1, [r])
    if any(not isn(x) for x in r.e):
        raise Open("component of the residual")
    return [float(x) for x in r.e]


def close(x, y):
    d = abs(float(x) - y)
    return d <= 1e-6 * max(1, abs(y)) or abs(d - 2 * math.pi * round(d / (2 * math.pi))) < 1e-6


def moved(R, key, pf, line, sec, T_, m, judged, cn):
    """external residual of two transformations: it vanishes when they are equal"""
    if not (isinstance(m, T) and m.op == "fld"):
        return
    its = {y for y in subterms(m) if y.op == "fld" and y.a[1] == "second"}
    if len(its) != 1:
        return
    b = subst(m, {its.pop(): sec})
    opens, done = [], 0
    k = f"{key}/{m.a[1]}"
    for i in range(24):
        I = PI(7919 * i + 5, None, "gen")
        I.judged = judged
        try:
            I.geovals = {}
            for ph, r in cn.carried:
                if isinstance(ph.a[2], T) and ph.a[2].op == "ctor" and short(str(ph.a[2].a[0])) == "TransformationExpression":
                    C = rotation([I.draw("f", "carried", r.id, q) for q in range(4)]).e
                    p = [I.draw("f", "carried", r.id, "p", q) for q in range(3)]
                    I.geovals[r] = ("T", M(4, 4, [*C[0:3], p[0], *C[3:6], p[1], *C[6:9], p[2], 0, 0, 0, 1]))
            g = geometric(I, T_)
            if g is None or g[0] != "T":
                raise Open("expression of the residual")
            got = I(b)
            if not plain(b):
                raise Open("prediction " + show(b)[:80])
            w = g[1]
            if any(not isinstance(y, M) or len(y.e) != 16 or not all(isn(z) for z in y.e) for y in (got, w)):
                raise Open("prediction " + fmt(got)[:80])
            if not all(close(y, float(z)) for y, z in zip(got.e, w.e)):
                R.viol(k, where(pf, line), f"the predicted {m.a[1]} is not the transformation the residual compares with the measured one: {fmt(got)[:200]} instead of {fmt(w)[:200]}")
                return
            done += 1
        except (Open, Bottom) as x:
            opens.append(str(x)[:100])
    (R.ok if done else R.und)(k, where(pf, line), f"the predicted {m.a[1]} is the one for which the residual vanishes" if done else opens[0])


def predicted(R, c, key, pf, line, v, judged):
    """the predicted quantity is the measurement for which the residual vanishes"""
    cn = Canon()
    sec = cn(fld(v, "second"))
    for e in judged:
        x = cn(e.recv) if isinstance(e.recv, T) else e.recv
        while isinstance(x, T) and x.op != "new":
            y = [z for z in subterms(x) if z.op == "new"]
            x = y[0] if y else None
        if x is None:
            continue
        E = errclass(c, str(x.a[0]))
        if short(str(x.a[0])) == "ErrorTermTransformation" and len(x.a[1]) >= 2:
            moved(R, key, pf, line, sec, x.a[1][0], x.a[1][1], judged, cn)
        if E is None:
            continue
        for j, a in enumerate(x.a[1]):
            its = {y for y in subterms(a) if y.op == "fld" and y.a[1] == "second"} if isinstance(a, T) else ()
            if len(its) != 1 or a.op not in ("fld", "mat"):
                continue
            b = subst(a, {its.pop(): sec})
            names = sorted({str(y.a[1]) for y in subterms(a) if y.op == "fld" and contains(y.a[0], lambda z: z.op == "fld" and z.a[1] == "second")})
            k = f"{key}/{'+'.join(names)}"
            opens, done = [], 0
            for i in range(24):
                I = PI(7919 * i + 5, None, "gen")
                I.judged = judged
                try:
                    args = [arg(I, y) for y in x.a[1]]
                    z = args[j]
                    if isinstance(z, M) and z.c != 1:
                        break
                    z = z if isinstance(z, M) else M(1, 1, [z if isn(z) else I.draw("f", "measured", k)])
                    if any(not isn(y) for y in z.e):
                        z = M(z.r, 1, [I.draw("f", "measured", k, q) for q in range(z.r)])
                    at = lambda w: args[:j] + [w if z.r > 1 else w.e[0]] + args[j + 1:]
                    base = residual_at(c, E, at(z))
                    h = []
                    for q in range(z.r):
                        up = residual_at(c, E, at(M(z.r, 1, [y + (w == q) * 2.0 ** -6 for w, y in enumerate(z.e)])))
                        d = [(w - y) * 64 for w, y in zip(up, base)]
                        nz = [w for w, y in enumerate(d) if abs(y) > 1e-9]
                        if len(nz) != 1 or abs(abs(d[nz[0]]) - 1) > 1e-6:
                            break
                        h.append(float(z.e[q]) - base[nz[0]] / d[nz[0]])
                    if len(h) < z.r:
                        continue       # not a difference of the measured and the predicted quantity
                    I.errs = (x, base)
                    I.given = {a: M(z.r, 1, z.e) if z.r > 1 else z.e[0]}
                    got = I(b)
                    if not plain(b):
                        raise Open("prediction " + show(b)[:80])
                    got = got.e if isinstance(got, M) else [got]
                    if len(got) != len(h) or not all(isn(y) for y in got):
                        raise Open("prediction " + ", ".join(fmt(y)[:40] for y in got))
                    if not all(close(y, w) for y, w in zip(got, h)):
                        R.viol(k, where(pf, line), f"records {[round(float(y), 6) for y in got]} as the predicted {'+'.join(names)} where the residual {E.short} vanishes for {[round(y, 6) for y in h]}")
                        done = -1
                        break
                    done += 1
                except (Open, Bottom, Undecided) as x_:
                    opens.append(str(x_)[:100])
            if done > 0:
                R.ok(k, where(pf, line), f"the predicted {'+'.join(names)} is the one for which {E.short} vanishes")
            elif done == 0 and opens:
                R.und(k, where(pf, line), opens[0])


def content(R, c, key, pf, line, n, v, judged):
    t = c.fields[n]
    if re.search(r"vector<(?:std::)?pair<", t):
        first = fld(v, "first")
        ok = contains(first, lambda x: x.op == "fld" and x.a[1] == "first" and contains(x, lambda y: y.op == "iv"))
        R.result(ok, key, where(pf, line), "the prediction carries the time of its measurement" if ok else "the time of the prediction is " + show(first)[:150])
        return
    opens = []
    for i in range(12):
        I = RI(7919 * i + 5, None, "gen")
        I.judged = judged
        try:
            got = I(v)
            if isn(got):
                want = sum(I.draw("f", "squared error", i) for i in range(len(judged)))
                if not equal(got, want):
                    R.viol(key, where(pf, line), f"recorded {fmt(got)} for squared errors of sum {fmt(want)}")
                    return
            elif isinstance(got, M):
                want = [I.draw("f", "error", i, k) for i in range(len(judged)) for k in range(3)]
                if len(got.e) != len(want):
                    raise Open("dimension")
                if any(not isn(x) for x in got.e):
                    raise Open("unresolved component")
                if sorted(map(float, got.e)) != sorted(map(float, want)):
                    R.viol(key, where(pf, line), f"recorded error {fmt(got)} is not made of the errors {want} of the judged residuals")
                    return
            else:
                raise Open("record " + fmt(got)[:80])
        except (Open, Bottom) as e:
            opens.append(str(e)[:100])
    (R.und if opens else R.ok)(key, where(pf, line), opens[0] if opens else "the errors of all judged residuals")
