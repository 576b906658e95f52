"""C12 derived quantities always match the parameters they derive from."""
from .dom import *
from sa.project import load
from .c08 import fkey

GEO = NS + r"Transformation<double, (2|3)>"
SKIP = ("getSample", "getSamples", "write", "read")


def observers(L, cls, S=None):
    """const member functions whose result is a value"""
    out = []
    for c in [cls] + L.m.bases(cls):
        for f in L.m.methods(c):
            if f["kind"] in ("method", "conv") and f.get("const") and f.get("body") is not None and f["ret"] != "void" \
                    and f["n"] not in SKIP and f.get("access") == "public" and all(p["ref"] in ("v", "cr") for p in f["params"]):
                if f["n"] not in [g["n"] for g in out if [p["t"] for p in g["params"]] == [p["t"] for p in f["params"]]]:
                    out.append(f)
    return out


def usable(L, f, st):
    try:
        outs = L.run(f, st, L.cargs(f, "q"))
    except Undecided:
        return False
    return not any(o.trace for o in outs)


def check(R):
    R.rule("after every constructor and every setter, applied to every constructed object with arbitrary parameters, each derived quantity "
           "equals its defining formula evaluated on the parameters the object then reports")
    R.rule("after every setter every const observer agrees with the same observer of an object freshly constructed from the parameters in force")
    R.rule("a Transformation equals the matrix / translation-rotation it was given on every entry; inverting gives the inverse matrix, inverting "
           "again the original, and getInverse agrees with inverse and changes nothing")
    m = load("lib")
    L = Lib(m, R)
    for s, cls in subjects(L, R):
        subject(R, L, s, cls)
    cs = L.classes(GEO)
    if len(cs) < 2:
        R.lost("Transformation")
    for cls in cs:
        transformation(R, L, cls)


def derived_checks(S, L, s, cls, st):
    I = S.I
    p = pvals(S, L, s, cls, st)
    out = []
    for g, fn in s.derived.items():
        f = L.method(cls, g, 0)
        if f is None:
            continue
        got = S.get(f, st)
        want = fn(I, p)
        if isinstance(want, tuple) and want[0] == "llt":
            # a factorisation is determined by the matrix it was computed from
            if not isinstance(got, Tok) or got.k not in I.factor:
                raise Open("factorisation")
            got, want = I.factor[got.k], want[1]
        out.append((g, got, want))
    return out


def subject(R, L, s, cls):
    cts = s.ctors(L, cls)
    if not cts:
        R.lost("constructor of " + cls)
        return
    for c in cts + s.tuple_ctors(L, cls):
        tup = c not in cts
        a = L.cargs(c, "c")
        if tup:
            b = mk("deref", a[0][0][1])
            for i, p in enumerate(cts[0]["params"]):
                TYPES[fld(b, f"get<{i}>")] = p["t"].replace("const ", "").replace(" &", "")

        def spec(S, o, c=c, a=a, tup=tup):
            if o.kind == "throw":
                return None
            p = pvals(S, L, s, cls, o.st)
            out = []
            for i, k in enumerate(s.names):
                v = S.I(fld(mk("deref", a[0][0][1]), f"get<{i}>")) if tup else argval(S.I, c, i, a[i])
                out.append((f"{k} after construction", p[k], v))
            return out + derived_checks(S, L, s, cls, o.st)
        contract(L, R, fkey(c), c, spec, args=a, n=150, mode=("mix", "gen", "pos"),
                 given=None if tup else every_other(geometry(L, s, cls, a)), written=True)
    for f in L.m.methods(cls):
        if f["kind"] == "ctor" and not f["params"] and f.get("body") is not None:
            contract(L, R, fkey(f), f, lambda S, o: derived_checks(S, L, s, cls, o.st), n=20, written=True)
    sets = [(g, [n]) for n, _, g in s.params if g] + s.joint
    c = cts[0]
    ca = L.cargs(c, "c")
    try:
        base = [o.st for o in L.run(c, args=ca) if o.kind == "ret"]
    except Undecided as e:
        R.und(fkey(c), where(c), str(e))
        return
    obs = observers(L, cls)
    for name, ps in sets:
        fs = L.methods(cls, name, len(ps))
        if not fs:
            R.lost(cls + "::" + name)
        for f in fs:
            for st in base:
                st = St(st.store, st.facts, (), {})
                a = L.cargs(f, "n")
                fresh(R, L, s, cls, f, st, a, c, obs)


def fresh(R, L, s, cls, f, st, a, c, obs):
    fa = L.cargs(c, "f")
    fouts = L.run(c, args=fa)
    key = fkey(f)
    und = set()

    def spec(S, o):
        if o.kind == "throw" or holds(st.facts, S.I) is not True:
            return None
        out = derived_checks(S, L, s, cls, o.st)
        p = pvals(S, L, s, cls, o.st)
        given = dict(S.I.given)
        for i, k in enumerate(s.names):
            given[fa[i] if isinstance(fa[i], T) else mk("deref", fa[i][0][1])] = p[k]
        J = Interp(S.I.seed, given, S.I.mode, S.I.maxlen)
        J.extra = S.I.extra
        S2 = Spec(L, J)
        fo = outcome(fouts, J)
        if fo.kind == "throw":
            return [("parameters in force", 1, 0)]
        for g in obs:
            if g["id"] in und:
                continue
            qa = L.cargs(g, "q")
            try:
                if not usable(L, g, o.st) or not usable(L, g, fo.st):
                    und.add(g["id"])
                    continue
                v1 = S.call(g, o.st, qa)
                v2 = S2.call(g, fo.st, qa)
            except (Open, Bottom):
                continue
            if v1[0] != v2[0]:
                out.append((g["n"] + " refuses", v1[0] == "throw", v2[0] == "throw"))
            elif v1[0] == "ret":
                out.append((g["n"] + " against a fresh object", v1[1], v2[1]))
        return out
    contract(L, R, key, f, spec, st, a, n=200, mode=("mix", "gen", "pos"))


def block(m, d):
    return M(d, d, [m.e[i * m.c + j] for i in range(d) for j in range(d)])


def rigid(d, seed):
    """small set of rational rigid transformations"""
    F = Fraction
    rots = {2: [[1, 0, 0, 1], [F(3, 5), F(-4, 5), F(4, 5), F(3, 5)], [0, -1, 1, 0], [F(-5, 13), F(-12, 13), F(12, 13), F(-5, 13)]],
            3: [[1, 0, 0, 0, 1, 0, 0, 0, 1], [F(2, 3), F(-1, 3), F(2, 3), F(2, 3), F(2, 3), F(-1, 3), F(-1, 3), F(2, 3), F(2, 3)],
                [0, 0, 1, 1, 0, 0, 0, 1, 0], [F(3, 5), F(-4, 5), 0, F(4, 5), F(3, 5), 0, 0, 0, 1]]}[d]
    trs = [[F(1), F(-2), F(5, 2)], [F(7, 3), F(1, 5), F(-4)], [F(0), F(0), F(0)]]
    r, t = rots[seed % len(rots)], trs[(seed // len(rots)) % len(trs)]
    e = []
    for i in range(d):
        e += r[i * d:(i + 1) * d] + [t[i]]
    return M(d + 1, d + 1, e + [0] * d + [1])


def ypr(v, d):
    c, s = math.cos, math.sin
    if d == 2:
        x, y, w = v
        return M(3, 3, [c(w), -s(w), x, s(w), c(w), y, 0, 0, 1])
    x, y, z, r, p, w = v
    return M(4, 4, [c(w) * c(p), c(w) * s(p) * s(r) - s(w) * c(r), c(w) * s(p) * c(r) + s(w) * s(r), x,
                    s(w) * c(p), s(w) * s(p) * s(r) + c(w) * c(r), s(w) * s(p) * c(r) - c(w) * s(r), y,
                    -s(p), c(p) * s(r), c(p) * c(r), z, 0, 0, 0, 1])


def transformation(R, L, cls):
    d = int(cls.rstrip(">").split(",")[-1])
    get = L.method(cls, "getTransformationMatrix", 0)
    inv_ = L.method(cls, "inverse", 0)
    ginv = L.method(cls, "getInverse", 0)
    setm = L.method(cls, "setTransformationMatrix", 1)
    sett = L.method(cls, "setTransformation", 3 if d == 2 else 6)
    if None in (get, inv_, ginv, setm, sett):
        return
    states = []

    def chain(S, st, want):
        out = [("transformation", S.get(get, st), want)]
        i1 = outcome(L.run(inv_, st), S.I)
        iw = S.I.inv(want)
        out.append(("inverse", S.get(get, i1.st), iw))
        i2 = outcome(L.run(inv_, i1.st), S.I)
        out.append(("inverse of the inverse", S.get(get, i2.st), want))
        g = outcome(L.run(ginv, st), S.I)
        s2, loc = L.E.tmp(g.st, g.val)
        out.append(("getInverse", S.get(get, s2, this=loc), iw))
        out.append(("receiver of getInverse", S.get(get, g.st), want))
        return out

    def mat(f, st, key):
        a = L.cargs(f, "n")
        leaf = mk("deref", a[0][0][1])
        contract(L, R, key, f, lambda S, o: chain(S, o.st, S.I(leaf)), st, a, n=24, given=lambda i: {leaf: rigid(d, i)})

    def tr(f, st, key):
        a = L.cargs(f, "n")
        contract(L, R, key, f, lambda S, o: chain(S, o.st, ypr([S.I(x) for x in a], d)), st, a, n=24, mode="gen")
    base = None
    for f in L.m.methods(cls):
        if f["kind"] != "ctor" or f.get("body") is None:
            continue
        ps = f["params"]
        if not ps:
            contract(L, R, fkey(f), f, lambda S, o: chain(S, o.st, diagonal([1] * (d + 1))), n=2)
        elif len(ps) == 1 and "Matrix<" in ps[0]["t"]:
            mat(f, None, fkey(f))
        elif len(ps) == len(sett["params"]):
            tr(f, None, fkey(f))
            outs = L.run(f, args=L.cargs(f, "c"))
            base = [o.st for o in outs if o.kind == "ret"]
    for st in base or []:
        st = St(st.store, st.facts, (), {})
        mat(setm, st, fkey(setm))
        tr(sett, st, fkey(sett))
    if not base:
        R.lost("constructor of " + cls)
