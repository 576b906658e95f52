"""C31 the trajectory splines of a batch."""
import hashlib
import math

from sa.engine import short
from .cal import *
from . import core
from . import c22
from .core import Rec, Mp, Ptr, Obj, Seq

N = 120
FIT = "initUniformSpline"


def unit(*k):
    h = hashlib.sha256(repr(k).encode()).digest()
    q = [int.from_bytes(h[4 * i:4 * i + 4], "big") / 2 ** 31 - 1 for i in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def vec(*k):
    h = hashlib.sha256(repr(k).encode()).digest()
    return [4 * (int.from_bytes(h[4 * i:4 * i + 4], "big") / 2 ** 31 - 1) for i in range(3)]


def quat(R, flip):
    """unit quaternion (x, y, z, w) of a rotation matrix, in either of its two signs"""
    m = lambda i, j: R.e[3 * i + j]
    c = [m(0, 0) - m(1, 1) - m(2, 2), m(1, 1) - m(0, 0) - m(2, 2), m(2, 2) - m(0, 0) - m(1, 1), m(0, 0) + m(1, 1) + m(2, 2)]
    k = max(range(4), key=lambda i: c[i])
    s = math.sqrt(1 + c[k]) * 2
    a, b, g = m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)
    p, q, r = m(1, 0) + m(0, 1), m(0, 2) + m(2, 0), m(2, 1) + m(1, 2)
    v = {3: [a / s, b / s, g / s, s / 4], 0: [s / 4, p / s, q / s, a / s], 1: [p / s, s / 4, r / s, b / s], 2: [q / s, r / s, s / 4, g / s]}[k]
    return [-x for x in v] if flip else v


def tf(R, p):
    return M(4, 4, [*R.e[0:3], p[0], *R.e[3:6], p[1], *R.e[6:9], p[2], 0, 0, 0, 1])


def rot(t4):
    return M(3, 3, [t4.e[4 * i + j] for i in range(3) for j in range(3)])


def pos(t4):
    return [t4.e[3], t4.e[7], t4.e[11]]


def near(a, b, e=1e-7):
    return len(a) == len(b) and all(isn(x) and isn(y) and abs(float(x) - float(y)) <= e for x, y in zip(a, b))


def dvkey(t):
    """name of the member that designates a design variable"""
    while isinstance(t, T) and (t.op == "deref" or t.op == "call" and t.a[0] == "get" and len(t.a) == 2):
        t = t.a[-1]
    return t.a[1] if isinstance(t, T) and t.op == "fld" else None


class FI(core.CI):
    """geometry with freely chosen measurements and design variables"""
    fits = ()
    carried = {}
    mtypes = {}

    def fresh(self, binds):
        return sub(self, binds)

    def typed(self, ty, *k):
        if ty and "Transformation" in ty:
            return tf(c22.rotation(unit(self.seed, *k)), vec(self.seed, "p", *k))
        return super().typed(ty, *k)

    def draw(self, kind, *k):
        v = super().draw(kind, *k)
        return 1 + abs(int(v)) % 15 if kind in "iu" else abs(v) + Fraction(1, 3) if kind == "f" and self.mode == "pos" else v

    def leaf(self, t, ty=None):
        ty = ty or TYPES.get(t)
        if t not in self.given and ty and "Transformation" in ty:
            return self.typed(ty, "leaf", str(t))
        return super().leaf(t, ty)

    def op_idx(self, t, c, *i):
        if len(i) == 1 and isinstance(i[0], T) and i[0].op not in ("iv", "num", "find", "findv") and i[0] is not sym("$i") and \
                not str(i[0]).startswith("$L"):
            v = self(c)
            if isinstance(v, Mp):
                k = self(i[0])
                if k not in v:
                    raise Outside("missing key " + fmt(k))
                return v.get(k)
        return super().op_idx(t, c, *i)

    def op_fld(self, t, b, n):
        if t not in self.given:
            v = None
            try:
                v = self(b)
            except (Open, Bottom):
                pass
            if isinstance(v, Tok) and v.k[:1] == ("meas",):
                if n == "duration":
                    return 1 + self.h("duration", *v.k) % 900
                r = self.typed(TYPES.get(t) or self.mtypes.get(n), "fld", v.k, n)
                return r if r is not None else Tok("fld", v, n)
        return super().op_fld(t, b, n)

    def geo(self, t):
        k = dvkey(t)
        return None if k is None else unit(self.seed, "dv", k), None if k is None else vec(self.seed, "dv", k)

    def op_ret(self, t, n, *a):
        if n == "parametersToRotationMatrix":
            return self.rotmat(self.vecs(*a))
        return super().op_ret(t, n, *a)

    def vecs(self, *a):
        for x in a:
            try:
                v = self(x)
            except (Open, Bottom):
                continue
            if isinstance(v, M) and len(v.e) == 3:
                return v
        raise Open("angles " + str([(fmt(self.any(x))[:80], TYPES.get(x)) for x in a]))

    def rotmat(self, v):
        return c22.rotation(unit("ypr", *[round(float(x), 9) for x in v.e]))

    def op_out(self, t, n, i, *a):
        if n == "getParameters" and a:
            k = dvkey(a[0])
            if k is not None:
                return M(3, 1, vec(self.seed, "dv", k))
        return super().op_out(t, n, i, *a)

    def op_call(self, t, n, *a):
        if n == "getQuaternion" and len(a) == 1 and dvkey(a[0]):
            return M(4, 1, unit(self.seed, "dv", dvkey(a[0])))
        if n in ("toEuclidean", "value", "toValue", "getValue", "evaluate") and len(a) == 1 and dvkey(a[0]) and TYPES.get(t) and "Matrix<double, 3, 1" in TYPES[t]:
            return M(3, 1, vec(self.seed, "dv", dvkey(a[0])))
        if n in ("toRotationMatrix", "toC") and len(a) == 1 and dvkey(a[0]):
            return c22.rotation(unit(self.seed, "dv", dvkey(a[0])))
        if n == "parametersToRotationMatrix":
            return self.rotmat(self.vecs(*a))
        if n == "getOne" and not a:
            return 10 ** 9
        if n == "op*" and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            if isinstance(x, M) and isinstance(y, M) and x.c == 4 and y.r == 4:
                return c22.prod(x, y)
        if n in ("t", "q", "C", "T", "inverse", "rotationQuaternion", "rotationMatrix", "translation", "transformation") and len(a) == 1:
            x = self(a[0])
            if isinstance(x, M) and (x.r, x.c) == (4, 4):
                if n in ("t", "translation"):
                    return M(3, 1, pos(x))
                if n in ("q", "rotationQuaternion"):
                    return M(4, 1, quat(rot(x), self.flip(rot(x))))
                if n in ("C", "rotationMatrix"):
                    return rot(x)
                if n == "inverse":
                    C = c22.transpose(rot(x))
                    return tf(C, [-y for y in c22.prod(C, M(3, 1, pos(x))).e])
                return x
        return super().op_call(t, n, *a)

    def flip(self, R):
        return self.h("sign", *[round(x, 6) for x in R.e]) & 1

    def fn(self, n, v):
        if n == "quat2r" and len(v) == 1 and isinstance(v[0], M) and len(v[0].e) == 4:
            return c22.rotation([float(x) for x in v[0].e])
        if n == "r2quat" and len(v) == 1 and isinstance(v[0], M) and len(v[0].e) == 9:
            R = M(3, 3, [float(x) for x in v[0].e])
            return M(4, 1, quat(R, self.flip(R)))
        if n == "getOne" and not v:
            return 10 ** 9
        return super().fn(n, v)

    # geometry of the back-end expressions (c22.geometric)
    def leafhook(self, t, n):
        if n == 4 and dvkey(t):
            return unit(self.seed, "dv", dvkey(t))
        if n == 3 and dvkey(t):
            return vec(self.seed, "dv", dvkey(t))
        if isinstance(t, T) and t.op == "call" and len(t.a) > 1 and isinstance(t.a[1], T):
            f = t.a[1]
            if t.a[0] in ("getValueExpression", "getValue", "getValueExpressionAt") and f.op == "call" and len(f.a) == 3:
                s = self.cn.root(f.a[1])
                d = len(t.a) > 2 and self(t.a[2]) or 0
                if s in self.fits and isn(d) and d == 0:
                    times, vals = self.fits[s]
                    x = self(f.a[2])
                    for k, y in enumerate(times):
                        if isn(x) and int(x) == int(y):
                            return [float(z) for z in vals[k].e]
                    raise Open("time outside the samples")
        return None


def check(R):
    R.rule("each spline of a window is fitted to one sample per pose: times of the measurements in order; position and orientation are those at which every pose "
           "measurement (motion measurement of the reference sensor) has no residual; successive quaternions lie in one hemisphere; the number of segments "
           "follows the knots per second asked for and the number of measurements")
    R.rule("a spline given to a problem puts each of its design variables into it once, active, in the group given, and is kept in order; accessors return what was given")
    for c in calibrators(R):
        for f, e in c.undecided.values():
            R.und(f"{c.short}/{f['n']}/summary", where(f), e)
        ms = c.having(FIT, 0)
        if not ms:
            R.lost(f"{c.short}: the method that fits the splines")
            continue
        for f, outs in ms:
            fitted(R, c, f, outs)
    problems(R)


def fits_of(o):
    return [e for e in flat(o.trace) if e.name == FIT and len(e.args) >= 5]


def fitted(R, c, f, outs):
    key = f"{c.short}/{f['n']}/fit"
    cases = [(o, fits_of(o)) for o in outs]
    cases = [(o, es) for o, es in cases if es]
    seen, opens, bad, line = set(), {}, {}, cases[0][1][0].line
    done = {"samples": 0, "residuals": 0, "segments": 0}
    ks = set()
    try:
        K = source(c, cases)[2]
    except Open:
        K = None
    for o, es in cases:
        for e in es:
            for x in subterms(e.args[3]):
                if x.op == "fld" and x is not K and (TYPES.get(x) or "") in ("int", "double", "unsigned int", "long", "unsigned long") and \
                        contains(x, lambda y: y is sym("this")):
                    ks.add(x)
    types = {}
    for n, t in c.fields.items():
        for x in re.findall(r"aslam::calibration::\w+", t):
            if x in c.L.m.rec:
                types.update({y: z["t"] for y, z, _ in c.L.m.all_fields(x)})
    for i in range(N):
        I = FI(6007 * i + 11, {"world": {}}, "pos")
        I.cn, I.mtypes = Canon(), types
        try:
            n = (2, 3, 3, 4, 5, 7)[i % 6]
            step = (10 ** 7, 10 ** 8, 3 * 10 ** 8, 10 ** 9)[i // 6 % 4]
            B, X, K = source(c, cases)
            recs = lambda s: Seq([Rec((("first", 10 ** 12 + (k + 1) * step + (37 * k * k) % 1000), ("second", Tok("meas", s, k)))) for k in range(n)])
            if K is None:
                I.given[B] = I.given[X] = recs(0)
            else:
                I.given[K] = 1
                I.given[B] = Mp([(0, recs(0)), (1, recs(1))] if i % 2 else [(1, recs(1)), (2, recs(2))])
            hit = [(j, o, es) for j, (o, es) in enumerate(cases) if holds(o.facts, I)]
            if len(hit) > 1:
                raise Open("several paths apply")
            if not hit:
                continue
            j, o, es = hit[0]
            seen.add(j)
            for what, msg, l in judge(I, c, o, es, I(X), done, ks):
                bad.setdefault(what, (msg, l or line))
        except Outside as e:
            bad.setdefault("samples", (f"with {n} measurements: {e}", line))
        except (Open, Bottom) as e:
            opens[str(e)[:120]] = opens.get(str(e)[:120], 0) + 1
    for what in ("samples", "residuals", "segments", "continuity", "splines"):
        if what in bad:
            R.viol(f"{key}/{what}", where(f, bad[what][1]), bad[what][0][:600])
        elif done["samples"] and (what != "residuals" or done["residuals"]) and (what != "segments" or done["segments"]):
            R.ok(f"{key}/{what}", where(f, line), f"on {done['samples']} models over {len(seen)} of {len(cases)} paths" +
                 (f", {done['residuals']} residuals" if what == "residuals" else ""))
        else:
            R.und(f"{key}/{what}", where(f, line), str(opens)[:300])


def source(c, cases):
    """(member, container of the measurements fitted, key inside the member or None)"""
    for o, es in cases:
        for e in es:
            for x in subterms(e.args[1]):
                if x.op == "call" and x.a[0] == "size" and len(x.a) == 2:
                    n = c.buffer_of(x.a[1])
                    if n is None:
                        continue
                    X, B = x.a[1], this(n)
                    if X is B:
                        return B, X, None
                    if X.op == "idx" and X.a[0] is B and len(X.a) == 2 and isinstance(X.a[1], T) and X.a[1].op == "fld":
                        return B, X, X.a[1]
    raise Open("measurements the splines are fitted to")


def judge(I, c, o, es, meas, done, ks):
    out, table, rec = [], {}, {}
    n = len(meas.e)
    times = [x.f["first"] for x in meas.e]
    kinds = {}
    for e in es:
        ts, vs, seg = I(e.args[1]), I(e.args[2]), I(e.args[3])
        if not isinstance(ts, Seq) or not isinstance(vs, Seq) or not isn(seg):
            raise Open("samples " + fmt(ts)[:60])
        if any(not isinstance(v, M) or len(v.e) not in (3, 4) for v in vs.e):
            raise Open("sample " + (fmt(vs.e[0])[:60] if vs.e else "none"))
        if len(ts.e) != len(vs.e):
            out.append(("samples", f"{len(ts.e)} times for {len(vs.e)} samples", e.line))
            continue
        s = I.cn.root(e.args[0])
        if s is None:
            raise Open("spline fitted")
        k = "rotation" if vs.e and len(vs.e[0].e) == 4 else "translation"
        if ("Quaternion" in str(s.a[0])) != (k == "rotation"):
            out.append(("splines", f"the {k} samples are fitted by {str(s.a[0])[:120]}", e.line))
        if k in kinds:
            out.append(("splines", f"two splines of the window are fitted to the {k}", e.line))
        kinds[k] = e
        table[s] = (ts.e, vs.e)
        rec[k] = (ts.e, vs.e, seg, e)
    if out:
        return out
    if set(kinds) != {"rotation", "translation"}:
        out.append(("splines", "only the " + "/".join(kinds) + " is fitted", es[0].line))
        return out
    (tt, tv, tseg, te), (rt, rv, rseg, re_) = rec["translation"], rec["rotation"]
    if list(map(ck, tt)) != list(map(ck, rt)):
        out.append(("samples", "positions and orientations are fitted at different times", re_.line))
        return out
    extra = len(tt) - n
    if extra not in (0, 1) or [int(x) for x in tt[extra:]] != [int(x) for x in times]:
        out.append(("samples", f"fitted at {[fmt(x) for x in tt]} for measurements at {[fmt(x) for x in times]}", te.line))
        return out
    if extra and not all(x < y for x, y in zip(tt, tt[1:])):
        out.append(("samples", f"times {[fmt(x) for x in tt]} do not increase", te.line))
    for a, b in zip(rv, rv[1:]):
        if sum(float(x) * float(y) for x, y in zip(a.e, b.e)) < -1e-9:
            out.append(("continuity", "successive orientations change the sign of the quaternion", re_.line))
            break
    done["samples"] += 1
    I.fits = table
    if extra:
        out += chain(I, c, o, tt, tv, rv, meas, te, re_)
    out += residuals(I, c, o, done, meas)
    elapsed = float(tt[-1] - tt[0]) / 1e9
    I.knots = {x: I(x) for x in ks}
    for seg, e in ((tseg, te), (rseg, re_)):
        if not 1 <= seg <= max(n, 1):
            out.append(("segments", f"{fmt(seg)} segments for {n} measurements over {elapsed:g} s with knots per second {list(I.knots.values())}", e.line))
        elif len(ks) == 1:
            k = float(list(I.knots.values())[0])
            done["segments"] += 1
            if n / elapsed >= k + 1 and seg != math.ceil(k * elapsed - 1e-9):
                out.append(("segments", f"{fmt(seg)} segments for {n} measurements over {elapsed:g} s with {k:g} knots per second", e.line))
    return out


def chain(I, c, o, tt, tv, rv, meas, te, re_):
    """motion measurements: every sample is the one before moved by the measured motion"""
    out = []
    T4 = [tf(c22.rotation([float(x) for x in q.e]), [float(x) for x in p.e]) for p, q in zip(tv, rv)]
    first = meas.e[0]
    prev = [n for n, t in c.fields.items() if "Transformation" in t]
    start = {n: I(this(n)) for n in prev}
    if not any(isinstance(v, M) and near(v.e, T4[0].e) for v in start.values()):
        out.append(("samples", "the first sample is not where the last window ended", te.line))
    else:
        n = [n for n, v in start.items() if isinstance(v, M) and near(v.e, T4[0].e)][0]
        v = I(c.L.rd(o.st, (n,)))
        if closing(o) and isinstance(v, M) and not near(v.e, T4[-1].e):
            out.append(("samples", f"{n} is not the last sample afterwards", te.line))
    return out


def closing(o):
    return any(e.name == "addErrorTerm" for e in flat(o.trace))


def residual(e):
    """residual an event judges or estimates"""
    if isinstance(e, LoopEv) or e.name not in ("addErrorTerm", "evaluateError"):
        return None
    x = e.args[0] if e.name == "addErrorTerm" else e.recv
    return x if transformation(x) else None


def residuals(I, c, o, done, meas):
    """residuals of the measurements that were fitted"""
    out = []
    for l, up in loops(o.trace):
        if not any(residual(e) is not None for k, fs, t in l.alts for e in t):
            continue
        out += walk(I, c, l, up, done, meas)
    return out


def transformation(x):
    return isinstance(x, T) and x.op == "new" and len(x.a[1]) >= 2 and isinstance(x.a[1][0], T) and x.a[1][0].op in ("ctor", "call") and \
        contains(x.a[1][0], lambda y: y.op == "ctor" and short(str(y.a[0])) == "TransformationExpression")


def walk(I, c, l, up, done, meas):
    out = []
    if up:
        (ol, ofs) = up[-1]
        lo, hi = int(I(ol.rng.a[0])), int(I(ol.rng.a[1]))
        ov = [mk("iv", d, ol.rng.a[0], ol.rng.a[1]) for d in range(1, 4)]
        outer = [{v: k for v in ov} for k in range(lo, hi)]
    else:
        outer = [{}]
    for g in outer:
        J = sub(I, g)
        if not any(x.op == "call" and x.a[0] == "size" and ck(J.any(x.a[1])) == ck(meas) for x in subterms(l.rng)):
            continue
        lo, hi = int(J(l.rng.a[0])), int(J(l.rng.a[1]))
        car = {}
        for nx in l.nxt:
            for hv, _ in nx:
                if hv.op == "phi":
                    car[hv] = ("init", hv.a[2])
        for k in range(lo, hi):
            Kt = sub(J, {mk("iv", d, l.rng.a[0], l.rng.a[1]): k for d in range(1, 5)})
            Kt.carried = car
            hit = None
            for m, (kind, fs, t) in enumerate(l.alts):
                if all(truth(Kt, a) == v for a, v in fs):
                    hit = (m, t)
                    break
            if hit is None:
                break
            m, t = hit
            for e in t:
                x = residual(e)
                if x is None:
                    continue
                a = x.a[1]
                g4 = geometry(Kt, a[0])
                if g4 is None or g4[0] != "T":
                    continue
                want = measured(Kt, a[1])
                if want is None:
                    continue
                done["residuals"] += 1
                if not near(g4[1].e, want.e, 1e-6):
                    out.append(("residuals", f"at the fitted trajectory the measured pose {fmt(want)[:160]} is predicted as {fmt(g4[1])[:160]}: " + show(a[0])[:200], e.line))
                    return out
            car = {hv: ("geo", geometry(Kt, v)) if v is not hv else car[hv] for hv, v in l.nxt[m] if hv.op == "phi"} if m < len(l.nxt) else car
    return out


def sub(I, g):
    J = type(I)(I.seed, {**I.given, **g}, I.mode, I.maxlen)
    J.factor = I.factor
    J.extra, J.fits, J.cn, J.carried, J.mtypes = I.extra, I.fits, I.cn, I.carried, I.mtypes
    return J


def truth(I, a):
    # "is there a previous pose": root of an expression carried between measurements
    if a.op == "eq" and any(isinstance(x, T) and x.op == "null" for x in a.a):
        x = [y for y in a.a if not (isinstance(y, T) and y.op == "null")]
        if x and x[0].op == "call" and x[0].a[0] == "root" and x[0].a[1] in I.carried:
            return I.carried[x[0].a[1]][0] == "init"
    return I.bool(a)


def geometry(I, t):
    return c22.geometric(I, t)


def measured(I, t):
    v = I(t)
    if isinstance(v, M) and (v.r, v.c) == (4, 4):
        return v
    if isinstance(v, M) and len(v.e) == 6 and all(isn(x) for x in v.e):
        return tf(I.rotmat(M(3, 1, v.e[3:])), [float(x) for x in v.e[:3]])
    return None


# ------------------------------------------------- problems that hold splines
class SI(core.CI):
    """splines and design variables are objects with identity"""

    def op_mut(self, t, n, old, *a):
        try:
            v = self(old)
        except (Open, Bottom):
            v = None
        if isinstance(v, Obj):
            return v
        return super().op_mut(t, n, old, *a)


def pointee(t):
    x = re.search(r"shared_ptr<(.*)>\s*(const)?\s*&?$", t.replace("const ", "", 1) if t.startswith("const ") else t)
    return x.group(1).strip() if x else None


def element(t):
    """type of the spline a container member holds pointers to"""
    m = CONT.match(t)
    if not m:
        return None
    a = targs(t)
    return pointee(a[0]) if a else None


def problems(R):
    """classes derived from the optimisation problem that hold splines"""
    n = 0
    for g in GROUPS:
        try:
            m = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
            continue
        L = Lib(m, R)
        for c in sorted(m.rec):
            if not m.rec[c].get("inrepo") or core.OP not in m.bases(c):
                continue
            held = {x: element(f["t"]) for x, f, _ in m.all_fields(c) if "Spline" in (element(f["t"]) or "")}
            if not held:
                continue
            n += 1
            for f in sorted(m.methods(c), key=lambda f: f["id"]):
                if f.get("body") is None or f["kind"] != "method" or f.get("static"):
                    continue
                key = f"{g}/{c.split('::')[-1]}/{f['n']}/{core.sig(f)}"
                ps = [pointee(p["t"]) for p in f["params"]]
                if ps and ps[0] in held.values():
                    contract(L, R, key, f, added(L, f, held, ps[0]), n=48, given=spline_world(f, held), cls=SI, same=core.same, need=("ret",))
                elif not f.get("access") in ("private", "protected"):
                    served(L, R, key, f, held)
    if not n:
        R.lost("problems that hold splines")


def spline_world(f, held):
    def given(i):
        r = core.Rnd(i * 17 + 3)
        n = r(5)
        ds = [f"d{k}" for k in range(n)]

        def dv(k):
            if not isn(k) or not 0 <= k < n:
                raise Outside("design variable index of a spline")
            return Ptr(ds[int(k)])
        w = {"s": {"numDesignVariables": n, "designVariable": dv, "getDesignVariables": Seq([Ptr(d) for d in ds])}, "ds": ds}
        for d in ds:
            w[d] = {"isActive": False}
        g = {"world": w}
        w["this"] = {x: Seq([Ptr(f"{x}{k}") for k in range(r(4))]) for x in held}
        g[mk("deref", sym("this"))] = Obj("this")
        for x in held:
            g[this(x)] = w["this"][x]
        for k, p in enumerate(f["params"]):
            t = core.argterm(f, k)
            g[t] = Ptr("s") if k == 0 else 3 + r(9)
        return g
    return given


def added(L, f, held, kind):
    def spec(S, o):
        if o.kind != "ret":
            return [("x", 0, 0)]
        w = S.I.given["world"]
        ev = core.replay(o.trace, S.I, ("setActive", "addDesignVariable"))
        reg, act = [], {}
        for n, r, a in ev:
            if n == "setActive":
                if not isinstance(r, Obj):
                    raise Open("variable made active")
                act[r.n] = bool(a[0])
            else:
                p = a[0]
                if not isinstance(p, Ptr):
                    raise Open("variable registered " + fmt(p)[:60])
                reg.append((p.n, a[1] if len(a) > 1 else 0))
        grp = S.I.given.get(core.argterm(f, 1), 0) if len(f["params"]) > 1 else 0
        out = [("registered variables", Seq([Ptr(p) for p, _ in reg]), Seq([Ptr(d) for d in w["ds"]])),
               ("groups", Seq([g for _, g in reg]), Seq([grp] * len(w["ds"]))),
               ("activation", Seq([int(act.get(d, False)) for d in w["ds"]]), Seq([1] * len(w["ds"])))]
        for x, k in held.items():
            old = S.I.given[this(x)]
            out.append((x.strip("_"), S.I(L.rd(o.st, (x,))), Seq(old.e + (Ptr("s"),)) if k == kind else old))
        return out
    return spec


def stem(a, b):
    """length of the longest common part of two names"""
    a, b = a.lower().strip("_"), b.lower().strip("_")
    best = 0
    for i in range(len(a)):
        while a[i:i + best + 1] in b and i + best < len(a):
            best += 1
    return best


def served(L, R, key, f, held):
    """accessors of the splines held"""
    ret = f.get("ret", "")
    ks = [k for k in set(held.values()) if k in ret]
    if ks:
        x = [x for x in held if held[x] == max(ks, key=len)][0]
    else:
        if f["params"] or not re.match(r"(unsigned|long|int|std::size_t|size_t)", ret) or "Spline" not in f["n"]:
            return
        x = max(held, key=lambda y: stem(y, f["n"]))

    def spec(S, o):
        v = S.I.given[this(x)]
        if f["params"]:
            i = S.I.given[core.argterm(f, 0)]
            if i >= len(v.e):
                return "throw" if o.kind == "throw" else None
            if o.kind == "throw":
                return [("x", 0, 0)]
            got = S.I(L.E.read(o.st, o.loc)) if o.loc is not None else S.I(o.val)
            return [("spline", Ptr(got.n) if isinstance(got, Obj) else got, v.e[int(i)])]
        if o.kind == "throw":
            return [("x", 0, 0)]
        got = S.I(L.E.read(o.st, o.loc)) if o.loc is not None else S.I(o.val)
        return [("value", got, v if ks else len(v.e))]

    def given(i):
        r = core.Rnd(i * 13 + 5)
        g = {"world": {}}
        for y in held:
            g[this(y)] = Seq([Ptr(f"{y}{k}") for k in range(r(4))])
        for k, p in enumerate(f["params"]):
            g[core.argterm(f, k)] = r(4)
        return g
    contract(L, R, key, f, spec, n=40, given=given, cls=SI, same=core.same, need=())
