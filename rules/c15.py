"""C15 what is set is what is read."""
from . import GROUPS
from .c08 import fkey
from .dom import *
from sa.project import load


def check(R):
    R.rule("after every returning path of a setter the matching accessor yields the argument and every other independent property is unchanged")
    R.rule("const and non-const variants of an accessor designate the same location and refuse the same inputs")
    R.rule("constructors and operations that differ only in argument form leave equal states / return equal results")
    R.rule("a constructor taking the properties by name and order is read back by the accessors")
    m = load("lib")
    L = Lib(m, R)
    done = set()
    for s, cls in subjects(L, R):
        subject(R, L, s, cls, done)
    for g in GROUPS:
        LL = L if g == "lib" else Lib(load(g), R)
        for cls in sorted(k for k, r in LL.m.rec.items() if r.get("inrepo")):
            generic(R, LL, cls, done)
            variants(R, LL, cls)
    transformation(R, L)
    # accessors of the optimisation problems: every variant against the container model
    R.rule("each variant of an accessor of the optimisation problems designates the element at the position asked for")
    from . import c05, c05p, core
    m = load("core")
    c05.incremental(Lib(m, R, opaque=core.opaque, pure=core.pure), R, only=TABLED)
    c05p.problem(Lib(m, R, opaque=core.opaque, pure=core.pure), R, only=TABLED)


TABLED = ("designVariableImplementation", "errorTermImplementation", "getOptimizationProblem")


def at(f):
    return f["id"], f["file"], f["line"]


def leaf(a):
    return a if isinstance(a, T) else mk("deref", a[0][1])


def subject(R, L, s, cls, done):
    ctors = s.ctors(L, cls)
    if not ctors:
        R.lost("constructor of " + cls)
        return
    for c in ctors:
        ca = L.cargs(c, "c")

        def spec(S, o):
            if o.kind == "throw":
                return None
            p = pvals(S, L, s, cls, o.st)
            return [(n, p[n], S.I(leaf(a))) for n, a in zip(s.names, ca)]
        contract(L, R, fkey(c) + " of " + cls, c, spec, None, ca, n=120, mode=("mix", "pos"), given=every_other(geometry(L, s, cls, ca)))
        for t in s.tuple_ctors(L, cls):
            ta = L.cargs(t, "t")
            tl = [fld(leaf(ta[0]), f"get<{i}>") for i in range(len(s.names))]
            for x, p in zip(tl, c["params"]):
                TYPES[x] = p["t"].replace("const ", "").replace(" &", "")

            def spec(S, o):
                p = pvals(S, L, s, cls, o.st) if o.kind != "throw" else None
                vals = [S.I(x) for x in tl]
                if s.valid and not s.valid(S.I, dict(zip(s.names, vals))):
                    return "throw"
                return [(n, p[n], v) for n, v in zip(s.names, vals)] if p else []
            contract(L, R, fkey(t) + " of " + cls, t, spec, None, ta, n=120, mode=("mix", "pos"))
    sts = [st for _, st in L.constructed(cls)]
    jobs = [(st_, [n]) for n, _, st_ in s.params if st_] + s.joint
    for name, ps in jobs:
        f = L.method(cls, name, len(ps))
        if f is None:
            continue
        done.add(at(f))
        a = L.cargs(f, "s")
        for k, st0 in enumerate(sts):
            st = St(st0.store, st0.facts, (), {})

            def spec(S, o):
                if o.kind == "throw":
                    return None
                before, after = pvals(S, L, s, cls, st), pvals(S, L, s, cls, o.st)
                new = dict(zip(ps, [S.I(leaf(x)) for x in a]))
                return [(n, after[n], new.get(n, before[n])) for n in s.names]
            contract(L, R, f"{fkey(f)} on {cls} built by #{k}", f, spec, st, a, n=120, mode=("mix", "pos"))


def pairs(L, cls):
    """{property: (setter, getter)} declared in cls or its bases"""
    out = {}
    for f in L.methods(cls):
        n = f["n"]
        if f.get("static") or f.get("body") is None or not n.startswith("set") or len(f["params"]) != 1:
            continue
        x = n[3:]
        gs = []
        for g in ("get" + x, "is" + x, x[:1].lower() + x[1:]):
            gs += [h for h in L.methods(cls, g, 0) if h.get("body") is not None and not h.get("static")]
        if gs:
            out[f["id"]] = (f, sorted(gs, key=lambda h: not h.get("const")))
    return out


def generic(R, L, cls, done):
    ps = pairs(L, cls)
    for f, gs in ps.values():
        if at(f) in done:
            continue
        done.add(at(f))
        a = L.cargs(f, "s")
        others = [hs[0] for h, hs in ps.values() if h["n"] != f["n"] and h["cls"] == f["cls"]]

        def spec(S, o):
            if o.kind == "throw":
                return None
            want = S.I(leaf(a[0]))
            out = [(g["n"] + ("/const" if g.get("const") else ""), S.get(g, o.st), want) for g in gs]
            return out + [(h["n"] + " unchanged", S.get(h, o.st), S.get(h)) for h in others]
        contract(L, R, fkey(f), f, spec, None, a, n=60, mode=("mix", "pos"))


def variants(R, L, cls):
    """const / non-const pairs"""
    from .c07 import lockey
    by = {}
    given, kw = None, {}
    grids = [s for s in SUBJECTS if s.names == ["min", "max", "res"] and re.fullmatch(s.cls, cls)]
    if grids:
        # representative geometries, so that indices and points fall inside and outside
        given = geometry(L, grids[0], cls, L.cargs(grids[0].ctors(L, cls)[0], "c"))
        if given:
            kw = dict(given=given)
    for f in L.m.methods(cls):
        if f.get("body") is None or f.get("static") or f["kind"] in ("ctor", "dtor") or f.get("access") == "private":
            continue
        by.setdefault((f["n"], ptypes(f)), {})[bool(f.get("const"))] = f
    for fs in by.values():
        if len(fs) < 2:
            continue
        c, n = fs[True], fs[False]
        if not n["ret"].rstrip().endswith(("&", "*")) and "iterator" not in n["ret"]:
            continue
        a = L.cargs(c, "x")
        k = f"{fkey(n)}: const and non-const variant"
        if cls.endswith("OptimizationProblem") and n["n"] in TABLED:
            continue
        try:
            if all(o.kind == "throw" for f in (c, n) for o in L.run(f, None, a)):
                R.ok(k, where(n), "both always refuse")
                continue
        except Undecided:
            pass
        sts = [St(s.store, s.facts, (), {}) for _, s in L.constructed(cls)] or [None]
        for st in sts[:2]:
            def spec(S, o):
                x = outcome(L.run(c, st, a), S.I)
                if x.kind == "throw":
                    return "throw"
                if o.kind == "throw":
                    return []
                if o.loc is not None and x.loc is not None:
                    return [("designated element", lockey(S.I, o.loc), lockey(S.I, x.loc))]
                return [("result", S.I(o.val), S.I(x.val))]
            cov = contract(L, Quiet(R), k, n, spec, st, a, n=160 if kw else 60, mode=("mix", "pos", "gen"), quiet=True, **kw)
            if cov and cov["throw"] and not cov["ret"]:
                st = None       # a container that is empty when constructed: any content
            contract(L, R, k, n, spec, st, a, n=160 if kw else 60, mode=("mix", "pos", "gen"), **kw)


class Quiet:
    """a report nothing is written to"""

    def __init__(self, R):
        self.R = R

    def __getattr__(self, n):
        return lambda *a, **k: None


def transformation(R, L):
    for cls in L.classes(NS + r"Transformation<.*>"):
        t = L.method(cls, "transform", 2)
        u = L.method(cls, "operator()", 1)
        g = L.method(cls, "getTransformationMatrix", 0)
        if not (t and u and g):
            continue
        a = L.cargs(t, "x")

        def spec(S, o):
            mt = S.get(g)
            src = S.I(leaf(a[0]))
            h = I_mul(mt, src)
            return [("destination", S.I(L.E.read(o.st, a[1])), h), ("operator()", S.get(u, None, (a[0],)), h)]
        contract(L, R, fkey(t) + " on " + cls, t, spec, None, a, n=40)


def I_mul(m, v):
    n = m.r - 1
    return M(n, 1, [sum((m.e[i * m.c + j] * v.e[j] for j in range(n)), m.e[i * m.c + n]) for i in range(n)])
