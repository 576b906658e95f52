"""Container models for the optimisation problems: maps, records and pointers with identity."""
from sa.ev import M, Seq, Tok, Interp, Open, Bottom, Outside, Refused, ck, isn, equal
from sa.lib import *

NS = "aslam::calibration::"
OP = NS + "OptimizationProblem"
IOP = NS + "IncrementalOptimizationProblem"
IE = NS + "IncrementalEstimator"
DV = "aslam::backend::DesignVariable"
ET = "aslam::backend::ErrorTerm"


class Rec(Tok):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = dict(f)
        super().__init__("rec", *sorted((k, ck(v)) for k, v in self.f.items()))

    def __repr__(self):
        return "(" + ", ".join(f"{k}={fmt(v)}" for k, v in self.f.items()) + ")"


class Mp(Tok):
    """map (or set: every value None); iteration order is the insertion order"""
    __slots__ = ("it", "default")

    def __init__(self, items=(), default=None):
        self.it = {}
        self.default = default
        for k, v in items:
            self.it[ck(k)] = (k, v)
        super().__init__("map", *sorted((str(k), ck(v) if v is not None else 0) for k, (_, v) in self.it.items()))

    def items(self):
        return list(self.it.values())

    def get(self, k):
        r = self.it.get(ck(k))
        return None if r is None else r[1]

    def __contains__(self, k):
        return ck(k) in self.it

    def put(self, k, v):
        return Mp([x for x in self.items() if ck(x[0]) != ck(k)] + [(k, v)] if k not in self else
                  [(a, v if ck(a) == ck(k) else b) for a, b in self.items()], self.default)

    def drop(self, k):
        return Mp([x for x in self.items() if ck(x[0]) != ck(k)], self.default)

    def __repr__(self):
        return "{" + ", ".join(fmt(k) + (":" + fmt(v) if v is not None else "") for k, v in self.items()) + "}"


class Ptr(Tok):
    """pointer to a named object"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n
        super().__init__("ptr", n)

    def __repr__(self):
        return "&" + self.n


class Obj(Tok):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n
        super().__init__("obj", n)

    def __repr__(self):
        return self.n


class Name(Tok):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n
        super().__init__("name", n)

    def __repr__(self):
        return self.n


NULLV = Tok("null")


class CI(Interp):
    """interpretation with containers; given["world"]: {object name: {attribute: value}}"""

    def world(self, o, a):
        return self.given["world"].get(o.n, {}).get(a)

    def op_deref(self, t, p):
        if t in self.given:
            return self.leaf(t)
        try:
            v = self(p)
        except Open:
            return self.leaf(t)
        if isinstance(v, Ptr):
            return Obj(v.n)
        if isinstance(v, Tok) and v.key() == NULLV.key():
            raise Outside("null dereferenced")
        return self.leaf(t)

    def op_null(self, t):
        return NULLV

    def op_rec(self, t, cls, fs):
        out = []
        for n, v in fs:
            try:
                out.append((n, self(v)))
            except Bottom as e:
                if not str(e).startswith("uninit"):
                    raise
                out.append((n, Tok("undetermined", n)))
        return Rec(out)

    def op_empty(self, t):
        return Empty()

    def op_fld(self, t, b, n):
        if t in self.given:
            return self.leaf(t)
        v = None
        try:
            v = self(b)
        except Open:
            pass
        if isinstance(v, Rec):
            if n not in v.f:
                raise Open("field " + n)
            return v.f[n]
        if isinstance(v, Obj):
            x = self.world(v, n)
            if x is not None:
                return x
        return super().op_fld(t, b, n)

    def op_idx(self, t, c, *i):
        v = self(c)
        if isinstance(v, Mp) and len(i) == 1:
            if isinstance(i[0], T) and i[0].op in ("find", "findv"):
                k = self(i[0].a[1])
                if k not in v:
                    raise Outside("end of map dereferenced")
                return Rec((("first", k), ("second", v.get(k))))
            k = self(i[0])
            if isn(k):
                its = v.items()
                if not 0 <= k < len(its):
                    raise Outside("element outside container")
                a, b = its[int(k)]
                return a if b is None else Rec((("first", a), ("second", b)))
            if k not in v:
                if v.default is None:
                    raise Outside("missing key " + fmt(k))
                return v.default
            return v.get(k)
        return super().op_idx(t, c, *i)

    def op_upd(self, t, c, i, x):
        v = self(c)
        if isinstance(v, Rec) and len(i) == 1 and isinstance(i[0], str):
            return Rec({**v.f, i[0]: self(x)})
        if isinstance(v, Mp) and len(i) == 1:
            k = self(i[0])
            if isn(k):
                raise Open("write through an iterator")
            return v.put(k, self(x))
        return super().op_upd(t, c, i, x)

    def op_find(self, t, c, x):
        return self.findpos(self(c), self(x))

    op_findv = op_find

    def findpos(self, v, x):
        if isinstance(v, Mp):
            for n, (k, _) in enumerate(v.items()):
                if equal(k, x):
                    return n
            return len(v.items())
        if isinstance(v, Seq):
            for n, k in enumerate(v.e):
                if equal(k, x):
                    return n
            return len(v.e)
        raise Open("find")

    def op_has(self, t, c, k):
        v = self(c)
        if isinstance(v, Mp):
            return self(k) in v
        return super().op_has(t, c, k)

    def op_mut(self, t, n, old, *a):
        v = self(old)
        if isinstance(v, Empty) and n == "insert":
            v = Mp()
        if isinstance(v, Mp):
            av = [self.any(x) for x in a]
            if n in ("insert", "emplace"):
                k, x = (av[0], av[1]) if len(av) == 2 else (av[0], None)
                if isinstance(k, Rec) and "first" in k.f and len(av) == 1:
                    k, x = k.f["first"], k.f["second"]
                return v if k in v else v.put(k, x) if x is not None else Mp(v.items() + [(k, None)], v.default)
            if n == "erase":
                if len(av) == 2:
                    its = v.items()
                    if not (isn(av[0]) and isn(av[1])):
                        raise Open("map erase")
                    if not 0 <= av[0] <= av[1] <= len(its):
                        raise Outside("erase outside")
                    for k, _ in its[int(av[0]):int(av[1])]:
                        v = v.drop(k)
                    return v
                if isn(av[0]):
                    its = v.items()
                    if not 0 <= av[0] < len(its):
                        raise Outside("erase at end")
                    return v.drop(its[int(av[0])][0])
                return v.drop(av[0])
            if n == "clear":
                return Empty()
            if n == "insert_or_assign":
                return v.put(av[0], av[1])
            raise Open("map " + n)
        if isinstance(v, Empty) and n == "erase" and len(a) == 2:
            return v
        if isinstance(v, Seq) and n == "erase" and len(a) in (1, 2):
            k = [self(x) for x in a]
            if len(k) == 1 and isn(k[0]) and not 0 <= k[0] < len(v.e):
                raise Outside("erase at end")
            if len(k) == 2 and isn(k[0]) and isn(k[1]) and not 0 <= k[0] <= k[1] <= len(v.e):
                raise Outside("erase outside")
        return super().op_mut(t, n, old, *a)

    def op_eq(self, t, x, y):
        a, b = self(x), self(y)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, (Ptr, Obj, Name)) and isinstance(q, Tok):
                return p.key() == q.key()
            if isinstance(p, Tok) and p.key() == NULLV.key() and isinstance(q, Tok):
                return p.key() == q.key()
        return super().op_eq(t, x, y)

    def fn(self, n, v):
        if v and isinstance(v[0], (Mp, Empty)):
            m = v[0]
            its = m.items() if isinstance(m, Mp) else []
            if n == "size":
                return len(its)
            if n == "count" and len(v) == 2:
                return int(v[1] in m) if isinstance(m, Mp) else 0
        if v and isinstance(v[0], Obj):
            r = self.method(v[0], n, v[1:])
            if r is not None:
                return r
        return super().fn(n, v)

    def method(self, o, n, a):
        f = self.world(o, n)
        if f is None:
            return None
        if callable(f):
            return f(*a)
        return f if not a else None

    def op_ret(self, t, n, *a):
        v = [self.any(x) for x in a]
        if v and isinstance(v[0], Obj):
            r = self.method(v[0], n, v[1:])
            if r is not None:
                return r
        return super().op_ret(t, n, *a)

    def op_refof(self, t, n, o, *a):
        return Tok("ref", n, self(mk("deref", o)) if o.op != "addr" else Tok("at", str(o)), *[self.any(x) for x in a])

    def op_out(self, t, n, i, *a):
        v = []
        for x in a:
            try:
                v.append(self.any(x))
            except (Open, Bottom):
                v.append(Tok("any"))
        if n == "getParameters" and v and isinstance(v[0], Obj):
            return Tok("params", v[0].n)
        return Tok("out", n, i, *v)


class Empty(Seq):
    """cleared container of any kind"""

    def __init__(self):
        super().__init__(())


def same(a, b):
    """equal up to the order of elements of unordered containers"""
    ea = isinstance(a, (Seq, Mp)) and not (a.items() if isinstance(a, Mp) else a.e)
    eb = isinstance(b, (Seq, Mp)) and not (b.items() if isinstance(b, Mp) else b.e)
    if ea and eb:
        return True
    if isinstance(a, Mp) and isinstance(b, Mp):
        return len(a.it) == len(b.it) and all(k in b.it and (v is None and b.it[k][1] is None or same(v, b.it[k][1]))
                                             for k, (_, v) in a.it.items())
    return equal(a, b)


# ------------------------------------------------------------ worlds
PURE = ("designVariable", "errorTerm", "getGroupId", "numDesignVariables", "numErrorTerms", "isErrorTermInProblem", "isDesignVariableInProblem",
        "isActive", "minimalDimensions", "get", "getErrorTerms", "getDesignVariablesGroup", "getGroupDim", "designVariables", "dimension")


def pure(c):
    return c["n"] in PURE and (c.get("cls") or "").startswith((OP, "aslam::backend::", "boost::shared_ptr", "std::shared_ptr"))


def opaque(c):
    return c.get("cls") in (OP, "aslam::backend::OptimizationProblemBase", DV, ET)


class Batch:
    def __init__(self, name, dvs, ets):
        self.name, self.dvs, self.ets = name, dvs, ets  # dvs: [(dv, group)]

    def attrs(self):
        g = dict(self.dvs)

        def dv(i):
            if not isn(i) or not 0 <= i < len(self.dvs):
                raise Refused("design variable index of a batch")
            return Ptr(self.dvs[int(i)][0])

        def et(i):
            if not isn(i) or not 0 <= i < len(self.ets):
                raise Refused("error term index of a batch")
            return Ptr(self.ets[int(i)])

        def gid(p):
            if not isinstance(p, Ptr) or p.n not in g:
                raise Refused("design variable of another batch")
            return Name(g[p.n])
        return {"numDesignVariables": len(self.dvs), "numErrorTerms": len(self.ets), "designVariable": dv, "errorTerm": et, "getGroupId": gid,
                "isErrorTermInProblem": lambda p: isinstance(p, Ptr) and p.n in self.ets,
                "isDesignVariableInProblem": lambda p: isinstance(p, Ptr) and p.n in g,
                "getErrorTerms": Tok("terms", self.name)}


class Rnd:
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def __call__(self, n):
        return self.r.randrange(n)

    def some(self, xs, k=None):
        k = self(len(xs) + 1) if k is None else k
        return self.r.sample(list(xs), min(k, len(xs)))


DVS = ["x%d" % i for i in range(6)]
GRP = {"x0": "g0", "x1": "g0", "x2": "g1", "x3": "g1", "x4": "g2", "x5": "g2"}


class World:
    """an incremental problem reached by adding batches (and saving), plus a few foreign objects"""

    def __init__(self, seed):
        r = self.r = Rnd(seed)
        nb = (0, 1, 2, 2, 3, 3)[r(6)]
        self.batches = []
        self.grp = dict(GRP)
        if r(3) == 0:
            for d in DVS:
                self.grp[d] = "g%d" % r(3)
        ne = 0
        for j in range(nb):
            dvs = [(d, self.grp[d]) for d in r.some(DVS, 1 + r(3))]
            ets = ["e%d" % (ne + k) for k in range(r(3))]
            ne += len(ets)
            self.batches.append(Batch("b%d" % j, dvs, ets))
        self.ne = ne
        self.w = {d: {"isActive": bool(r(4)), "minimalDimensions": 1 + r(3), "getParameters": None} for d in DVS}
        for b in self.batches:
            self.w[b.name] = b.attrs()
        self.order = None
        self.saved = r(2) and set(r.some(DVS)) or set()
        c, g, o = self.views(self.batches)
        if o and r(2):
            r.r.shuffle(o)
        self.order = o
        live = [d for d in c.it.values()]
        self.backup = Mp([(k, Tok("old", k.n)) for k, _ in c.items() if r(2)])
        self.counts, self.groups = c, g

    def views(self, batches, order=None):
        """the abstraction: what the members must be for a list of batches"""
        cnt, grp, gs, o = {}, {}, {}, list(order or [])
        for b in batches:
            for d, g in b.dvs:
                if d not in cnt:
                    cnt[d] = 0
                    grp[d] = g
                    gs.setdefault(g, []).append(d)
                    if g not in o:
                        o.append(g)
                cnt[d] += 1
        counts = Mp([(Ptr(d), Rec((("first", n), ("second", Name(grp[d]))))) for d, n in cnt.items()],
                    Rec((("first", 0), ("second", 0))))
        groups = Mp([(Name(g), Seq([Ptr(d) for d in ds])) for g, ds in gs.items()], Seq(()))
        return counts, groups, [g for g in o if g in gs]

    def given(self, this=None):
        t = this or mk("deref", sym("this"))
        return {"world": self.w, fld(t, "_optimizationProblems"): Seq([Ptr(b.name) for b in self.batches]),
                fld(t, "_designVariablesCounts"): self.counts, fld(t, "_designVariables"): self.groups,
                fld(t, "_groupsOrdering"): Seq([Name(g) for g in self.order]), fld(t, "_designVariablesBackup"): self.backup}


MEMBERS = ("_optimizationProblems", "_designVariablesCounts", "_designVariables", "_groupsOrdering", "_designVariablesBackup")


def members(L, I, o):
    return {m: I(L.rd(o.st, (m,))) for m in MEMBERS}


def expect(w, batches, backup, order=None, bag=False):
    c, g, o = w.views(batches, order if order is not None else w.order)
    return {"_optimizationProblems": Seq([Ptr(b.name) for b in batches]), "_designVariablesCounts": c, "_designVariables": g,
            "_groupsOrdering": Seq([Name(x) for x in o]), "_designVariablesBackup": backup}


def bagged(v):
    """order inside a group is not promised"""
    if isinstance(v, Mp):
        return Mp([(k, bagged(x) if x is not None else None) for k, x in v.items()])
    if isinstance(v, Seq):
        return Seq(sorted(v.e, key=lambda x: str(ck(x))))
    return v


def argterm(f, i):
    return sym(f"arg{i}") if f["params"][i]["ref"] == "v" else mk("deref", sym(f"arg{i}"))


MODE = None     # "refusal": only judge that refusals leave the members alone
STATE = {IOP: MEMBERS, OP: ("_designVariablesLookup", "_errorTermsLookup", "_designVariables", "_errorTerms", "_groupsOrdering",
                            "_designVariablesBackup")}


def table(L, R, cls, name, nargs, draw, spec, world, n=260, pred=None, const=None, key=None, need=("ret",), required=True, args=None, given=None):
    """check every overload of cls::name; draw(w) -> argument values; spec(w, *values) -> 'throw' | value | {member: value} | callable(S,o)"""
    fs = L.methods(cls, name, nargs, const=const, pred=pred)
    if not fs:
        if required:
            R.lost(f"{cls}::{name}/{nargs}")
        return []
    for f in fs:
        store = {}

        def giv(i, f=f):
            w = world(i * 31 + 7)
            vals = draw(w)
            g = w.given()
            for k, v in enumerate(vals):
                if v is not None:
                    g[argterm(f, k)] = v
            if given:
                g.update(given(w, vals))
            g["vals"] = (w, vals)
            return g

        def sp(S, o, f=f):
            w, vals = S.I.given["vals"]
            if MODE == "bounds":
                e = spec(w, *vals)
                if e == "throw":
                    return e
                if o.kind == "throw":
                    return [("x", 0, 0)]
                if o.val is not None:
                    S.I(o.val)
                return [("served", 1, 1)]
            if MODE == "refusal":
                if o.kind != "throw":
                    return None
                return ("throw", [(m.lstrip("_") + " after a refusal", S.I(L.rd(o.st, (m,))), S.I(L.rd(St(), (m,)))) for m in STATE[cls]])
            e = spec(w, *vals)
            if e is None or e == "throw":
                return e
            if isinstance(e, dict):
                if o.kind == "throw":
                    return [("x", 0, 0)]
                return [(m.lstrip("_"), bagged(S.I(L.rd(o.st, (m,)))) if m == "_designVariables" else S.I(L.rd(o.st, (m,))),
                         bagged(v) if m == "_designVariables" else v) for m, v in e.items()]
            if o.kind == "throw":
                return [("x", 0, 0)]
            if callable(e):
                return e(S, o)
            return [("result", S.I(o.val), e)]
        contract(L, R, (key or (cls.split("::")[-1] + "::" + name)) + "/" + sig(f), f, sp, n=n, given=giv, cls=CI, same=same,
                 need=need if MODE != "refusal" else ("throw",) if "throw" in need else (), args=args(f) if args else None, strict=MODE != "refusal")
    return fs


def sig(f):
    return ",".join(p["t"].split("::")[-1].replace("const ", "").rstrip(" &*") for p in f["params"])[:60] + ("c" if f.get("const") else "")


def replay(trace, I, names, out=None):
    """events named in `names`, in order, as (name, receiver value, argument values), loops unrolled on the model"""
    out = [] if out is None else out
    for e in trace:
        if isinstance(e, LoopEv):
            if e.rng is None:
                if any(inside(t, names) for _, _, t in e.alts):
                    raise Open("loop without range")
                continue
            lo, hi = int(I(e.rng.a[0])), int(I(e.rng.a[1]))
            cur = {}
            for nx in e.nxt:
                for hv, _ in nx:
                    if hv.op == "phi" and lo < hi:
                        try:
                            cur[hv] = I.any(hv.a[2])
                        except Bottom as e:
                            cur[hv] = Tok("undefined", str(hv))
            depth = next((hv.a[0] for hv in cur), None)
            ivs = [mk("iv", d, e.rng.a[0], e.rng.a[1]) for d in ((depth,) if depth else range(1, 6))]
            for k in range(lo, hi):
                J = type(I)(I.seed, {**I.given, **{v: k for v in ivs}, **cur}, I.mode, I.maxlen)
                J.extra = I.extra
                hit = None
                for n, (kind, facts, t) in enumerate(e.alts):
                    ok = True
                    for a, v in facts:
                        if J.bool(a) != v:
                            ok = False
                            break
                    if ok:
                        hit = (kind, t, n)
                        break
                if hit is None:
                    raise Open("no alternative of the loop applies")
                replay(hit[1], J, names, out)
                if hit[0] not in ("n", "c"):
                    return out
                if hit[2] < len(e.nxt):
                    new = {}
                    for hv, v in e.nxt[hit[2]]:
                        if hv.op == "phi":
                            try:
                                new[hv] = J.any(v)
                            except (Open, Bottom):
                                new[hv] = Tok("unknown", str(hv), k)
                    cur = new
        elif e.name in names:
            r = I(mk("deref", e.recv)) if e.recv is not None and e.recv.op != "addr" else I(e.old) if e.old is not None else None
            out.append((e.name, r, tuple(I.any(a) for a in e.args)))
    return out


def inside(tr, names):
    return any(inside(t, names) for e in tr if isinstance(e, LoopEv) for _, _, t in e.alts) or any(
        not isinstance(e, LoopEv) and e.name in names for e in tr)
