"""C33 simulated measurements obey the model that is calibrated from them."""
from sa.engine import Undecided
from sa.lib import Lib
from sa.project import load, ExtractError
from .c31 import *
from . import c22, core
from .core import Mp, Rec, Seq, Tok
from .c24 import subterms as subs

GROUPS_ = ("time_delay", "egomotion_sensors")
N = 60


def opaque(c):
    return "NormalDistribution<" in (c.get("cls") or "")


def sampled(c):
    return "object" if opaque(c) and c["n"] == "getSample" else False


# ---------------------------------------------------------------- rigid motions (quaternions as in sm::kinematics: quat2r(q + p) = quat2r(q) quat2r(p))
def R_of(q):
    return c22.transpose(c22.rotation([float(x) for x in q]))


def q_of(R, flip=0):
    return quat(c22.transpose(R), flip)


def mul(A, B):
    return c22.prod(A, B)


def inv(A):
    C = c22.transpose(rot(A))
    return tf(C, [-y for y in mul(C, M(3, 1, pos(A))).e])


def app(R, v):
    return mul(R, M(3, 1, [float(x) for x in v])).e


def expm(v):
    """right-handed rotation by the vector v"""
    n = math.sqrt(sum(float(x) ** 2 for x in v))
    if n < 1e-15:
        return M(3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1])
    s = math.sin(n / 2) / n
    return c22.rotation([float(x) * s for x in v] + [math.cos(n / 2)])


def ypr(R):
    m = lambda i, j: float(R.e[3 * i + j])
    return [math.atan2(m(1, 0), m(0, 0)), math.atan2(-m(2, 0), math.hypot(m(2, 1), m(2, 2))), math.atan2(m(2, 1), m(2, 2))]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def fl(v):
    return [float(x) for x in (v.e if isinstance(v, (M, Seq)) else v)]


IDENT = tf(M(3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1]), [0, 0, 0])


class Dist(Tok):
    __slots__ = ("mean", "cov")

    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov
        super().__init__("normal", ck(mean), ck(cov))


class SI(core.CI):
    """a simulation on concrete parameters; samples of a distribution are values of their own"""
    drawn, fits, tag = None, None, ""

    def fresh(self, binds):
        J = type(self)(self.seed, {**self.given, **binds}, self.mode, self.maxlen)
        J.extra, J.factor, J.drawn, J.fits, J.span = self.extra, self.factor, self.drawn, self.fits, self.span
        J.tag = hashlib.md5((self.tag + repr([(str(k), str(ck(v)) if not isinstance(v, Exception) else "x") for k, v in binds.items()])).encode()).hexdigest()
        return J

    def op_ctor(self, t, cls, *a):
        s = short(cls)
        if s.startswith("NormalDistribution"):
            v = [self(x) for x in a]
            if len(v) == 1 and isinstance(v[0], Dist):
                return v[0]
            if len(v) == 2:
                return Dist(*v)
            raise Open("distribution")
        if s == "Transformation":
            v = [self(x) for x in a]
            if not v:
                return IDENT
            if len(v) == 1 and isinstance(v[0], M) and v[0].c == 4:
                return v[0]
            if len(v) == 2 and all(isinstance(x, M) for x in v) and len(v[0].e) == 4 and len(v[1].e) == 3:
                return tf(R_of(v[0].e), fl(v[1]))
            raise Open("transformation")
        if s == "EulerAnglesYawPitchRoll":
            return Tok("ypr")
        return super().op_ctor(t, cls, *a)

    def op_ret(self, t, n, *a):
        if n == "getSample" and a:
            d = self(a[0])
            if not isinstance(d, Dist):
                raise Open("distribution sampled")
            mean, cov = d.mean, d.cov
            dim = 1 if isn(cov) else cov.r
            if not (mean == 0 if isn(mean) else isinstance(mean, M) and all(x == 0 for x in mean.e)):
                self.drawn.append((None, None))
            k = ("sample", str(ck(cov)), tuple(str(x) for x in a[1:]), self.tag)
            h = hashlib.sha256(repr((self.seed, k)).encode()).digest()
            v = [0.05 * (int.from_bytes(h[4 * i:4 * i + 4], "big") / 2 ** 31 - 1) for i in range(dim)]
            if not any(x[1] == v for x in self.drawn):
                self.drawn.append((cov, v))
            return v[0] if isn(cov) else M(dim, 1, v)
        return super().op_ret(t, n, *a)

    def op_unwritten(self, t, *a):
        return Rec(())

    def op_idx(self, t, c, *i):
        v = self(c)
        if isinstance(v, core.Empty) and len(i) == 1:
            k = self.any(i[0])
            if isinstance(k, Tok):
                return Tok("default", t)
        return super().op_idx(t, c, *i)

    def op_upd(self, t, c, i, x):
        v = self(c)
        if isinstance(v, core.Empty) and len(i) == 1 and isinstance(i[0], T):
            k = self(i[0])
            if isinstance(k, Tok):
                return Mp([(k, self(x))], default=Tok("default"))
        if len(i) == 1 and isinstance(i[0], str) and isinstance(x, T) and x.op == "fld" and x.a[1] == i[0] and \
                not isinstance(v, Rec) and x.a[0].op == "ctor" and "NormalDistribution" in str(x.a[0].a[0]):
            return self(x.a[0])         # copied member by member
        if len(i) == 1 and isinstance(i[0], str) and isinstance(c, T) and c.op in ("unwritten", "upd"):
            if isinstance(v, Rec):
                return Rec({**v.f, i[0]: self(x)})
        return super().op_upd(t, c, i, x)

    def spline(self, t):
        for x in subs(t):
            if x.op == "new" and "BSpline" in str(x.a[0]):
                return "q" if "Quaternion" in str(x.a[0]) else "t"
        raise Open("spline")

    def op_call(self, t, n, *a):
        if n in ("getMinTime", "getMaxTime") and len(a) == 1:
            self.spline(a[0])
            return self.span[n == "getMaxTime"]
        if n == "eval" and len(a) == 1 and isinstance(a[0], T) and a[0].op == "call" and a[0].a[0] == "getEvaluatorAt":
            s, x = self.spline(a[0].a[1]), self(a[0].a[2])
            if not isn(x):
                raise Open("time of an evaluation")
            if not self.span[0] <= x <= self.span[1]:
                raise Outside("trajectory evaluated outside its span")
            return self.traj(s, x)
        if n == "getOne" and not a:
            return 10 ** 9
        if n in ("secToNsec", "nsecToSec") and len(a) == 1:
            x = self(a[0])
            if isn(x):
                return int(round(x * 10 ** 9)) if n == "secToNsec" else (Fraction(x) / 10 ** 9 if not isinstance(x, float) else x / 1e9)
        if n == "op*" and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            if isinstance(x, M) and isinstance(y, M) and x.c == 4 and y.r == 4 and y.c == 4:
                return mul(x, y)
        if n in ("t", "q", "C", "T", "inverse") and len(a) == 1:
            x = self(a[0])
            if isinstance(x, M) and (x.r, x.c) == (4, 4):
                return M(3, 1, pos(x)) if n == "t" else M(4, 1, q_of(rot(x), self.h("sign", *[round(float(y), 6) for y in rot(x).e]) & 1)) if n == "q" else \
                    rot(x) if n == "C" else inv(x) if n == "inverse" else x
        if n == "rotationMatrixToParameters":
            x = self(a[-1])
            if isinstance(x, M) and len(x.e) == 9:
                return M(3, 1, ypr(x))
        return super().op_call(t, n, *a)

    def traj(self, s, x):
        return M(4, 1, unit(self.seed, "at", s, str(Fraction(x)))) if s == "q" else M(3, 1, vec(self.seed, "at", s, str(Fraction(x))))

    def fn(self, n, v):
        ms = [x for x in v if isinstance(x, M)]
        if len(ms) == len(v) and v:
            k = [len(x.e) for x in v]
            if n in ("quatRotate",) and k == [4, 3]:
                return M(3, 1, app(R_of(v[0].e), v[1].e))
            if n == "cross" and k == [3, 3]:
                return M(3, 1, cross(v[0].e, v[1].e))
            if n == "quatInv" and k == [4]:
                return M(4, 1, [-x for x in v[0].e[:3]] + [v[0].e[3]])
            if n == "qplus" and k == [4, 4]:
                (x1, y1, z1, w1), (x2, y2, z2, w2) = fl(v[1]), fl(v[0])      # Hamilton product in the opposite order
                return M(4, 1, [w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
                                w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])
            if n in ("qexp", "axisAngle2quat") and k == [3]:
                th = math.sqrt(sum(x * x for x in fl(v[0])))
                s = math.sin(th / 2) / th if th > 1e-15 else 0.5
                return M(4, 1, [x * s for x in fl(v[0])] + [math.cos(th / 2)])
            if n == "quat2r" and k == [4]:
                return R_of(v[0].e)
            if n == "r2quat" and k == [9]:
                return M(4, 1, q_of(v[0], self.h("sign", *[round(float(y), 6) for y in v[0].e]) & 1))
        return super().fn(n, v)


# ---------------------------------------------------------------- parameters
def params(m, cls, base, I, given, vals, pre=""):
    """draw every parameter; dt, T and maps are drawn by the caller"""
    for n, z, _ in m.all_fields(cls):
        t = z["t"]
        f = fld(base, n)
        k = pre + n
        if t in m.rec and m.rec[t].get("inrepo"):
            params(m, t, f, I, given, vals, k + ".")
            continue
        if f in given:
            vals[k] = given[f]
        elif t == "double" or t in ("int", "unsigned int"):
            v = I.draw("f", "par", k)
            vals[k] = given[f] = Fraction(abs(Fraction(v)).limit_denominator(97)) % 3 + Fraction(1, 3) if t == "double" else 2 + I.h("par", k) % 4
        elif t.endswith("Transformation"):
            vals[k] = given[f] = tf(c22.rotation(unit(I.seed, k)), vec(I.seed, "p", k))
        elif "Matrix<double, 3, 3" in t:
            d = [Fraction(1 + I.h("par", k, i) % 977, 100) for i in range(3)]
            vals[k] = given[f] = M(3, 3, [d[0], 0, 0, 0, d[1], 0, 0, 0, d[2]])


def data(m, cls, base, given, out, pre=""):
    for n, z, _ in m.all_fields(cls):
        t = z["t"]
        f = fld(base, n)
        if t in m.rec and m.rec[t].get("inrepo"):
            data(m, t, f, given, out, pre + n + ".")
        elif "map<" in t.split("std::vector")[0]:
            given[f] = Mp([], default=Seq(()))
            out[pre + n] = ((f, n), t)
        elif "vector<" in t or "deque<" in t:
            given[f] = Seq(())
            out[pre + n] = ((f, n), t)


def close(a, b, e=1e-9):
    if isn(a) and isn(b):
        return abs(float(a) - float(b)) <= e * max(1.0, abs(float(a)), abs(float(b)))
    return isinstance(a, (M, Seq)) and len(a.e) == len(b.e if isinstance(b, (M, Seq)) else b) and all(close(x, y, e) for x, y in zip(a.e, b.e if isinstance(b, (M, Seq)) else b))


def check(R):
    R.rule("simulated trajectory: every pose is the one before moved for one step by the body velocities stored for that step")
    R.rule("simulated measurements without noise are those the calibrated model predicts for the stored trajectory and the parameters given, stamped with the delay of their sensor; "
           "the noisy measurement is the same one disturbed by a sample of its own, drawn from the zero-mean normal distribution with the covariance of that channel")
    n = 0
    for g in GROUPS_:
        try:
            m = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
            continue
        fs = [f for f in m.fn.values() if f["n"] == "simulate" and f.get("body") is not None and len(f["params"]) == 2]
        if not fs:
            R.lost(f"{g}: simulate")
        for f in fs:
            n += 1
            simulation(R, m, g, f)
            primitives(R, m, g)
    if not n:
        R.lost("simulations")


def tname(p):
    return p["t"].replace("const ", "").replace(" &", "").strip()


def simulation(R, m, g, f):
    L = Lib(m, R, opaque=opaque, fresh=sampled)
    key = f"{g}/simulate"
    try:
        outs = [o for o in L.run(f) if o.kind == "ret"]
    except Undecided as e:
        R.und(f"{key}/summary", where(f), str(e))
        return
    P, D = mk("deref", sym("arg0")), mk("deref", sym("arg1"))
    pc, dc = (tname(p) for p in f["params"])
    if pc not in m.rec or dc not in m.rec:
        R.lost(f"{key}: parameters and data")
        return
    ego = any("map<" in z["t"] for _, z, _ in m.all_fields(pc))
    bad, opens, done, seen = {}, {}, {}, set()
    kinds = ("straight", "sinePlanar", "random", "combined") if ego else (None,)
    for i in range(N):
        I = SI(9173 * i + 5, {}, "pos")
        I.drawn, given, vals = [], I.given, {}
        steps = 1 + i % 4
        dt = (Fraction(1, 2), Fraction(1, 8), Fraction(1), Fraction(3, 16))[i // 4 % 4]
        kind = kinds[i % len(kinds)]
        if kind == "combined":
            steps = 6 + 3 * (i % 3)
        given[fld(P, "dt")] = dt
        given[fld(P, "T")] = dt * steps + dt / 2
        I.span = (10 ** 6 * (i % 3), 10 ** 6 * (i % 3) + int(dt * 10 ** 9) * steps + (i % 2) * int(dt * 10 ** 8))
        out = {}
        if ego:
            maps(m, pc, P, I, given, vals, i)
            for x, z, _ in m.all_fields(pc):
                if z["t"] in m.rec and any(y == "type" for y, _, _ in m.all_fields(z["t"])):
                    given[fld(fld(P, x), "type")] = Tok("str", kind)
        params(m, pc, P, I, given, vals)
        data(m, dc, D, given, out)
        try:
            hit = [(j, o) for j, o in enumerate(outs) if holds(o.facts, I)]
            if len(hit) != 1:
                opens[f"{len(hit)} paths apply"] = opens.get(f"{len(hit)} paths apply", 0) + 1
                continue
            j, o = hit[0]
            seen.add(j)
            for what, msg in (egomotion if ego else odometry)(I, m, L, o, vals, out, dt, steps, done, kind):
                bad.setdefault(what, f"{steps} steps of {dt}" + (f", {kind}" if kind else "") + ": " + msg)
        except (Outside,) as e:
            bad.setdefault("data", f"{steps} steps of {dt}: {e}")
        except (Open, Bottom) as e:
            s = (type(e).__name__ + " " + str(e))[:140]
            opens[s] = opens.get(s, 0) + 1
    for what in sorted(set(bad) | {"trajectory", "noise"} | ({"motions"} if ego else {"wheels", "poses"})):
        if what in bad:
            R.viol(f"{key}/{what}", where(f), bad[what][:600])
        elif done.get(what):
            R.ok(f"{key}/{what}", where(f), f"{done[what]} values on models over {len(seen)} of {len(outs)} paths")
        else:
            R.und(f"{key}/{what}", where(f), str(opens)[:300])


def maps(m, pc, P, I, given, vals, i):
    ids = [Tok("sensor", k) for k in range(3)]
    order = [ids[(i + k) % 3] for k in range(3)]
    given[fld(P, "referenceSensor")] = ids[0]
    vals["ref"] = ids[0]
    cov = lambda k: M(6, 6, [Fraction(1 + I.h("cov", k.k[1], r) % 911, 100) if r == c else 0 for r in range(6) for c in range(6)])
    vals["sigma2"] = given[fld(P, "sigma2")] = Mp([(k, cov(k)) for k in order])
    vals["sensors"] = given[fld(P, "sensorCalibration")] = Mp([(k, Rec((("first", 1000 + I.h("delay", k.k[1]) % 10 ** 8),
                                                                        ("second", tf(c22.rotation(unit(I.seed, "cal", k.k[1])), vec(I.seed, "calp", k.k[1]))))))
                                                                for k in order if k is not ids[0]])


def value(I, L, o, out, n):
    (f, last), t = out[n]
    path = []
    x = f
    while x.op == "fld":
        path.insert(0, x.a[1])
        x = x.a[0]
    return I(L.E.read(o.st, (("o", sym("arg1")), tuple(path))))


def count(done, k, n=1):
    done[k] = done.get(k, 0) + n


class Noise:
    """every disturbance is a sample of the right distribution that nothing else uses"""

    def __init__(self, I):
        self.I, self.used = I, []

    def judge(self, cov, v, what):
        if any(c is None for c, _ in self.I.drawn):
            return f"{what}: noise with a mean"
        got = [j for j, (c, s) in enumerate(self.I.drawn) if len(s) == len(v) and all(close(x, y, 1e-6) for x, y in zip(s, v))]
        if not got:
            return f"{what}: the disturbance {[round(float(x), 5) for x in v]} is not a sample"
        if str(ck(self.I.drawn[got[0]][0])) != str(ck(cov)):
            return f"{what}: noise of covariance {fmt(self.I.drawn[got[0]][0])[:120]} instead of {fmt(cov)[:120]}"
        if got[0] in self.used:
            return f"{what}: one sample disturbs two measurements"
        self.used.append(got[0])
        return None


def odometry(I, m, L, o, p, out, dt, steps, done, kind):
    res = []
    v = lambda n: value(I, L, o, out, n)
    poses, vel, om = v("trajectory.w_T_v"), v("trajectory.v_v_wv"), v("trajectory.v_om_wv")
    for n, x in (("poses", poses), ("velocities", vel), ("angular velocities", om)):
        if not isinstance(x, Seq):
            raise Open(n + " " + fmt(x)[:60])
        if len(x.e) != steps + 1:
            res.append(("trajectory", f"{len(x.e)} {n} for {steps} steps"))
    if res:
        return res
    if not close(poses.e[0], p["trajectoryParams.w_T_v_0"]):
        res.append(("trajectory", "the first pose is not the one given"))
    A, fr = float(p["trajectoryParams.A"]), float(p["trajectoryParams.f"])
    w = 2 * math.pi * fr
    phi = lambda t: math.atan(w * A * math.cos(w * float(t)))
    for k in range(1, steps + 1):
        a = poses.e[k - 1]
        want = tf(mul(rot(a), expm([float(dt) * x for x in fl(om.e[k])])), [x + float(dt) * y for x, y in zip(fl(pos(a)), app(rot(a), fl(vel.e[k])))])
        if not close(poses.e[k], want, 1e-7):
            res.append(("trajectory", f"pose {k} is {fmt(poses.e[k])[:150]}; moving the one before by the stored velocities gives {fmt(want)[:150]}"))
            break
        t = k * dt
        d = [float(dt), A * (math.sin(w * float(t)) - math.sin(w * float(t - dt)))]
        vx = (math.cos(phi(t)) * d[0] + math.sin(phi(t)) * d[1]) / float(dt)
        if not close(vel.e[k], [vx, 0, 0], 1e-7):
            res.append(("trajectory", f"velocity of step {k} is {fmt(vel.e[k])} instead of {vx:.6g} along the heading"))
            break
        if k > 1 and not close(om.e[k], [0, 0, (phi(t) - phi(t - dt)) / float(dt)], 1e-7):
            res.append(("trajectory", f"angular velocity of step {k} is {fmt(om.e[k])}"))
            break
        count(done, "trajectory")
    nz = Noise(I)
    dtn = int(round(dt * 10 ** 9))
    for side, sg in (("l", 1), ("r", -1)):
        truth_, clean, noisy = v("w_v_ww" + side), v(side + "wData"), v(side + "wData_n")
        what = ("left" if side == "l" else "right") + " wheel"
        K, delay, var = p["k_" + side], p["t_" + side], p["sigma2_" + side]
        if not all(isinstance(x, Seq) and len(x.e) == steps for x in (truth_, clean, noisy)):
            res.append(("wheels", f"{what}: {[len(x.e) if isinstance(x, Seq) else '?' for x in (truth_, clean, noisy)]} entries for {steps} steps"))
            continue
        for k in range(steps):
            want = [a + b for a, b in zip(fl(vel.e[k + 1]), cross(fl(om.e[k + 1]), [0, sg * float(p["b"]), 0]))]
            stamp = k * dtn + int(round(delay * 10 ** 9))
            cv, nv = clean.e[k].f["second"].f.get("value"), noisy.e[k].f["second"].f.get("value")
            if not (isn(cv) and isn(nv)):
                raise Open("value of the wheel " + fmt(cv)[:80])
            if not close(truth_.e[k], want, 1e-7):
                res.append(("wheels", f"{what}: velocity {fmt(truth_.e[k])[:100]} instead of {want}"))
            elif not close(cv, float(K) * want[0], 1e-7):
                res.append(("wheels", f"{what}: value {float(cv):.6g} for velocity {want[0]:.6g} and scale {float(K):.6g}"))
            elif clean.e[k].f["first"] != stamp or noisy.e[k].f["first"] != stamp:
                res.append(("wheels", f"{what}: stamped {fmt(clean.e[k].f['first'])} and {fmt(noisy.e[k].f['first'])} instead of {stamp} (delay {delay})"))
            else:
                e = nz.judge(var, [(float(nv) - float(cv)) / float(K)], what)
                if e:
                    res.append(("noise", e))
                count(done, "wheels")
                count(done, "noise")
    clean, noisy = v("poseData"), v("poseData_n")
    if not all(isinstance(x, Seq) and len(x.e) == steps for x in (clean, noisy)):
        res.append(("poses", f"{[len(x.e) if isinstance(x, Seq) else '?' for x in (clean, noisy)]} pose measurements for {steps} steps"))
        return res
    for k in range(steps):
        S = mul(poses.e[k + 1], p["v_T_p"])
        c, d = clean.e[k].f["second"].f, noisy.e[k].f["second"].f
        stamp = k * dtn + int(round(dt * 10 ** 9 / 2))
        if not close(c["w_r_wp"], pos(S), 1e-7) or not close(c["w_R_p"], ypr(rot(S)), 1e-7):
            res.append(("poses", f"pose {k}: {fmt(c['w_r_wp'])[:90]} {fmt(c['w_R_p'])[:90]} instead of {[round(float(x), 6) for x in pos(S) + ypr(rot(S))]}"))
        elif clean.e[k].f["first"] != stamp or noisy.e[k].f["first"] != stamp:
            res.append(("poses", f"pose {k}: stamped {fmt(clean.e[k].f['first'])} and {fmt(noisy.e[k].f['first'])} instead of {stamp}"))
        elif any(str(ck(x[y])) != str(ck(p[y])) for x in (c, d) for y in ("sigma2_w_r_wp", "sigma2_w_R_p")):
            res.append(("poses", f"pose {k}: covariances not those given"))
        else:
            for y in ("w_r_wp", "w_R_p"):
                e = nz.judge(p["sigma2_" + y], [float(a) - float(b) for a, b in zip(d[y].e, c[y].e)], "pose " + y)
                if e:
                    res.append(("noise", e))
            count(done, "poses")
            count(done, "noise", 2)
    return res


def egomotion(I, m, L, o, p, out, dt, steps, done, kind):
    res = fits(I, m, o, p, dt, steps, done, kind)
    v = lambda n: value(I, L, o, out, n)
    clean, noisy = v("motionData"), v("motionDataNoisy")
    if not isinstance(clean, Mp) or not isinstance(noisy, Mp):
        raise Open("motions " + fmt(clean)[:80])
    dtn = int(round(dt * 10 ** 9))
    times = list(range(I.span[0], I.span[1] + 1, dtn))
    at = lambda t: tf(R_of(I.traj("q", t).e), fl(I.traj("t", t)))
    nz = Noise(I)
    for k, cov in p["sigma2"].items():
        a, b = clean.get(k), noisy.get(k)
        if len(times) > 1 and (a is None or b is None):
            res.append(("motions", f"no motions of sensor {k.k[1]}"))
            continue
        if len(times) == 1:
            continue
        if len(a.e) != len(times) - 1 or len(b.e) != len(times) - 1:
            res.append(("motions", f"{len(a.e)} and {len(b.e)} motions for {len(times)} poses"))
            continue
        ref = k.k == p["ref"].k
        X, delay = (IDENT, 0) if ref else (p["sensors"].get(k).f["second"], p["sensors"].get(k).f["first"])
        for j in range(1, len(times)):
            want = mul(mul(inv(mul(at(times[j - 1]), X)), at(times[j])), X)
            c, d = a.e[j - 1].f["second"].f, b.e[j - 1].f["second"].f
            s = "reference sensor" if ref else "sensor"
            if not close(c["motion"], want, 1e-7):
                res.append(("motions", f"{s}: motion {j} is {fmt(c['motion'])[:120]} instead of {fmt(want)[:120]}"))
            elif any(x.e[j - 1].f["first"] != times[j] + delay for x in (a, b)):
                res.append(("motions", f"{s}: motion {j} stamped {fmt(a.e[j - 1].f['first'])} and {fmt(b.e[j - 1].f['first'])} instead of {times[j] + delay}"))
            elif any(x.get("duration") != dtn for x in (c, d)):
                res.append(("motions", f"{s}: motion over {fmt(c.get('duration'))} and {fmt(d.get('duration'))} instead of {dtn}"))
            elif any(str(ck(x["sigma2"])) != str(ck(cov)) for x in (c, d)):
                res.append(("motions", f"{s}: covariance is not the one given for it"))
            else:
                e = mul(inv(want), d["motion"])
                n3 = [x for x in pos(e)]
                q = q_of(rot(e))
                sgn = 1 if q[3] >= 0 else -1
                q = [sgn * x for x in q]
                nv = math.sqrt(sum(x * x for x in q[:3]))
                th = 2 * math.atan2(nv, q[3])
                err = nz.judge(cov, n3 + [x / nv * th if nv > 1e-15 else 0 for x in q[:3]], s)
                if err:
                    res.append(("noise", err))
                count(done, "motions")
                count(done, "noise")
    return res


def fits(I, m, o, p, dt, steps, done, kind):
    res, got = [], {}
    es = [e for e in flat(o.trace) if e.name == FIT and len(e.args) >= 5]
    for e in es:
        s = I.spline(e.args[0])
        if s in got:
            res.append(("trajectory", "a spline is fitted twice"))
        got[s] = (I(e.args[1]), I(e.args[2]), I(e.args[3]), I(e.args[4]), e.line)
    if set(got) != {"q", "t"}:
        return res + [("trajectory", f"splines fitted: {sorted(got)}")]
    (ts, ps, n1, l1, line), (rs, qs, n2, l2, _) = got["t"], got["q"]
    if not all(isinstance(x, Seq) for x in (ts, ps, rs, qs)):
        raise Open("samples")
    dtn = int(round(dt * 10 ** 9))
    k = len(ts.e)
    if list(map(int, ts.e)) != [j * dtn for j in range(k)] or list(map(int, rs.e)) != list(map(int, ts.e)):
        return res + [("trajectory", f"line {line}: samples at {[fmt(x) for x in ts.e]} and {[fmt(x) for x in rs.e]} for steps of {dtn}")]
    if len(ps.e) != k or len(qs.e) != k:
        return res + [("trajectory", f"line {line}: {len(ps.e)} positions and {len(qs.e)} orientations at {k} times")]
    if k != steps + 1:
        return res + [("trajectory", f"line {line}: {k} samples for {steps} steps")]
    T0 = p["trajectoryParams.w_T_v_0"]
    if not close(ps.e[0], pos(T0)) or not close(R_of(qs.e[0].e), rot(T0), 1e-7):
        res.append(("trajectory", "the first pose is not the one given"))
    if any(sum(float(x) * float(y) for x, y in zip(a.e, b.e)) < -1e-9 for a, b in zip(qs.e, qs.e[1:])):
        res.append(("trajectory", "successive orientations change the sign of the quaternion"))
    for lam, n in ((l1, "trajectoryParams.transSplineLambda"), (l2, "trajectoryParams.rotSplineLambda")):
        if n in p and not close(lam, p[n]):
            res.append(("trajectory", f"smoothing {fmt(lam)} is not {n}"))
    if "trajectoryParams.splineKnotsPerSecond" in p:
        K, el = float(p["trajectoryParams.splineKnotsPerSecond"]), float((k - 1) * dt)
        for n in (n1, n2):
            if not 1 <= n <= k or (k / el >= K + 1 and n != math.ceil(K * el - 1e-9)):
                res.append(("trajectory", f"{fmt(n)} segments for {k} samples over {el:g} s with {K:g} knots per second"))
    T = float(dt) * steps + float(dt) / 2
    A1, w = float(p["trajectoryParams.A"]), 2 * math.pi * float(p["trajectoryParams.f"])
    sect = lambda t: kind if kind != "combined" else "straight" if float(t) < T / 3 - 1e-9 else "sinePlanar" if float(t) < 2 * T / 3 - 1e-9 else "random"
    free = [v for c, v in I.drawn if c is not None and len(v) == 3]
    used = []

    def sample(v):
        for n, s in enumerate(free):
            if all(abs(x - y) < 1e-6 for x, y in zip(v, s)):
                used.append(n)
                return used.count(n) == 1
        return False

    for j in range(1, k):
        t = j * dt
        sj = sect(t)
        A = 0.0 if sj == "straight" else A1
        phi = lambda t: math.atan(w * A * math.cos(w * float(t)))
        d = [float(dt), A * (math.sin(w * float(t)) - math.sin(w * float(t - dt)))]
        vx = (math.cos(phi(t)) * d[0] + math.sin(phi(t)) * d[1]) / float(dt)
        Ra, Rb = R_of(qs.e[j - 1].e), R_of(qs.e[j].e)
        dv = app(c22.transpose(Ra), [(x - y) / float(dt) for x, y in zip(fl(ps.e[j]), fl(ps.e[j - 1]))])
        n = (vx,) * 3 if sj == "random" else (vx, 0, 0)
        e = [x - y for x, y in zip(dv, n)]
        if not (sample(e) if sj == "random" else close(M(3, 1, dv), n, 1e-6)):
            res.append(("trajectory", f"step {j} ({sj}): moves with velocity {[round(x, 5) for x in dv]} while the path asks for {round(vx, 5)} along the heading" +
                        (" plus a sample of its own" if sj == "random" else "")))
            break
        if j == 1 or sect(t - dt) != sj:
            continue        # where the heading of a path starts
        oz = phi(t) - phi(t - dt)
        if sj == "random":
            q = q_of(mul(c22.transpose(Rb), Ra))        # = rotation vector of Ra^T Rb
            sg = 1 if q[3] >= 0 else -1
            nv = math.sqrt(sum(x * x for x in q[:3]))
            th = 2 * math.atan2(nv, sg * q[3])
            om = [sg * x / nv * th / float(dt) if nv > 1e-15 else 0.0 for x in q[:3]]
            if abs(oz) < 1.2 and not sample([x - oz / float(dt) for x in om]):
                res.append(("trajectory", f"step {j} (random): turns with {[round(x, 5) for x in om]} while the path asks for {oz / float(dt):.5g} plus a sample of its own"))
                break
        elif not close(Rb, mul(Ra, expm([0, 0, oz])), 1e-7):
            res.append(("trajectory", f"step {j} ({sj}): orientation"))
            break
    count(done, "trajectory", k)
    return res


# ---------------------------------------------------------------- integration of a step with any velocities
def primitives(R, m, g):
    for f in [f for f in m.fn.values() if f["n"] == "integrateMotionModel" and f.get("body") is not None and len(f["params"]) == 4]:
        key = f"{g}/{f['n']}"
        L = Lib(m, R, opaque=opaque, fresh=sampled)
        try:
            outs = [o for o in L.run(f) if o.kind == "ret"]
        except Undecided as e:
            R.und(key, where(f), str(e))
            continue
        bad, opens, n = None, {}, 0
        for i in range(80):
            a = tf(c22.rotation(unit(i, "a")), vec(i, "a"))
            v, om, dt = vec(i, "v"), vec(i, "om"), Fraction(1 + i % 9, 8)
            if i % 5 == 0:
                om = [0.0, 0.0, 0.0]
            if i % 5 == 1:
                om = [0.0, 0.0, om[2]]
            if i % 7 == 1:
                om = [1e-7 * x for x in om]
            I = SI(i, {mk("deref", sym("arg0")): a, mk("deref", sym("arg1")): M(3, 1, v), mk("deref", sym("arg2")): M(3, 1, om), sym("arg3"): dt}, "pos")
            I.drawn, I.span = [], (0, 0)
            try:
                hit = [o for o in outs if holds(o.facts, I)]
                if len(hit) != 1:
                    raise Open(f"{len(hit)} paths apply")
                x = I(hit[0].val)
                if not isinstance(x, M) or len(x.e) != 16:
                    raise Open(fmt(x)[:60])
                want = tf(mul(rot(a), expm([float(dt) * y for y in om])), [p + float(dt) * y for p, y in zip(pos(a), app(rot(a), v))])
                n += 1
                if not close(x, want, 1e-9):
                    bad = bad or f"velocity {v}, angular velocity {om} for {dt}: {fmt(x)[:200]} instead of {fmt(want)[:200]}"
            except (Open, Bottom) as e:
                opens[str(e)[:100]] = opens.get(str(e)[:100], 0) + 1
        if bad:
            R.viol(key, where(f), bad[:600])
        elif n > 40:
            R.ok(key, where(f), f"{n} models")
        else:
            R.und(key, where(f), str(opens)[:300])
