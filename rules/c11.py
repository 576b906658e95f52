"""C11 parameters outside their domain are refused everywhere."""
import random

from .dom import *
from sa.project import load
from .c08 import fkey


def probs(I, a):
    v = vec(a[0])
    return all(x >= 0 for x in v) and abs(sum(v) - 1) <= 1e-12


# operations with restricted arguments: class, name, arity, predicate over the argument values
ENTRIES = [
    (r"GammaDistribution<.*>", "invcdf", 1, lambda I, a, p: 0 <= a[0] <= 1),
    (r"GammaDistribution<.*>", "getMode", 0, lambda I, a, p: p("getShape") >= 1),
    (r"LogGammaFunction<unsigned long>", "getValue", 1, lambda I, a, p: a[0] > 0),
    (r"UniformDistribution<.*>", "getMode", 0, lambda I, a, p: False),
    (r"Randomizer<.*>", "sampleUniform", 2, lambda I, a, p: a[0] < a[1]),
    (r"Randomizer<.*>", "sampleNormal", 2, lambda I, a, p: a[1] > 0),
    (r"Randomizer<.*>", "sampleCategorical", 1, lambda I, a, p: probs(I, a)),
    (r"Randomizer<.*>", "samplePoisson", 1, lambda I, a, p: a[0] > 0),
    (r"Randomizer<.*>", "sampleExponential", 1, lambda I, a, p: a[0] > 0),
    (r"Randomizer<.*>", "sampleGeometric", 1, lambda I, a, p: 0 < a[0] <= 1),
    (r"Randomizer<.*>", "sampleGamma", 2, lambda I, a, p: a[0] > 0 and a[1] > 0),
]


FINE = [Fraction(1, 10 ** 20), -Fraction(1, 10 ** 20), Fraction(1), Fraction(2), Fraction(0)]
SLANT = Fraction(1, 10 ** 6)


def fine(f, args):
    """models next to the boundary of a restriction: tiny values, slightly asymmetric matrices"""
    leaves = []
    for p, a in zip(f["params"], args or []):
        leaf = a if isinstance(a, T) else mk("deref", a[0][1]) if a[0][0] == "o" and not a[1] else None
        t = p["t"].replace("const ", "").replace(" &", "").strip()
        if leaf is not None and t == "double":
            leaves.append((leaf, lambda r: r.choice(FINE)))
        else:
            d = re.match(r"Eigen::Matrix<double, (\d+), \1\b", t)
            if leaf is not None and d:
                leaves.append((leaf, lambda r, n=int(d.group(1)): slanted(r, n)))
    return leaves


def slanted(r, n):
    m = [[Fraction(2) if i == j else Fraction(1, 2) for j in range(n)] for i in range(n)]
    if n > 1 and r.random() < 0.7:
        i, j = r.sample(range(n), 2)
        m[i][j] += SLANT
    return M(n, n, [x for y in m for x in y])


def domain(L, R, key, f, pred, st=None, args=None, n=300, given=None):
    """f raises exactly on the models where pred is false"""
    w = where(f)
    near = fine(f, args) if given is None else []
    try:
        outs = L.run(f, st, args)
    except Undecided as e:
        R.und(key, w, str(e))
        return
    extra = constants(outs)
    cov = {True: 0, False: 0}
    opens = {}
    for i in range(n):
        r = random.Random(i)
        I = Interp(15485863 * i + 11, given(i) if given else {l: g(r) for l, g in near} if near and i % 5 == 0 else None, ("mix", "gen", "pos")[i % 3])
        I.extra = extra
        try:
            if st is not None and holds(st.facts, I) is not True:
                continue
            ok = bool(pred(I))
        except (Bottom, Open) as e:
            opens[str(e)] = opens.get(str(e), 0) + 1
            continue
        thr, ret = [], []
        for o in outs:
            try:
                h = holds(o.facts, I)
            except Bottom:
                h = None
            if h is not False:
                (thr if o.kind == "throw" else ret).append((o, h))
        if ok and any(h is True for _, h in thr) and not ret:
            R.viol(key, where(f, thr[0][0].line), f"refuses ({thr[0][0].val}) a legal argument: {desc(I)}")
            return
        if not ok and ret and not thr:
            R.viol(key, w, f"accepts an illegal argument: {desc(I)}")
            return
        if bool(thr) != bool(ret):
            cov[ok] += 1
    if cov[True] or cov[False]:
        R.ok(key, w, f"serves {cov[True]} legal and refuses {cov[False]} illegal models")
    else:
        R.und(key, w, f"no model decided: {opens}")


def check(R):
    R.rule("every constructor and every setter of a restricted parameter raises exactly when the parameter values it would install violate "
           "the restriction (table of restrictions per class), boundary included; all entries are judged by the same predicate")
    R.rule("every operation with restricted arguments raises exactly outside the restriction")
    m = load("lib")
    L = Lib(m, R)
    for s, cls in subjects(L, R):
        if s.valid is None:
            continue
        cts = s.ctors(L, cls)
        if not cts:
            R.lost("constructor of " + cls)
        for c in cts:
            def pred(I, c=c):
                return s.valid(I, {k: argval(I, c, i, a) for i, (k, a) in enumerate(zip(s.names, L.cargs(c, "c")))})
            domain(L, R, fkey(c), c, pred, args=L.cargs(c, "c"))
        for c in s.tuple_ctors(L, cls):
            b = mk("deref", sym("arg0"))
            for i, p in enumerate(cts[0]["params"]):
                TYPES[fld(b, f"get<{i}>")] = p["t"].replace("const ", "").replace(" &", "")

            def pred(I, c=c):
                return s.valid(I, {k: I(fld(b, f"get<{i}>")) for i, k in enumerate(s.names)})
            domain(L, R, fkey(c), c, pred)
        sets = [(g, [n]) for n, _, g in s.params if g] + s.joint
        for c in cts[:1]:
            try:
                base = [o.st for o in L.run(c, args=L.cargs(c, "c")) if o.kind == "ret"]
            except Undecided as e:
                R.und(fkey(c), where(c), str(e))
                continue
            for name, ps in sets:
                for f in L.methods(cls, name, len(ps)):
                    for st in base:
                        st = St(st.store, st.facts, (), {})
                        a = L.cargs(f, "n")

                        def pred(I, f=f, st=st, a=a, ps=ps):
                            S = Spec(L, I, st)
                            p = pvals(S, L, s, cls, st)
                            for i, k in enumerate(ps):
                                p[k] = argval(I, f, i, a[i])
                            return s.valid(I, p)
                        domain(L, R, fkey(f), f, pred, st, a)
                if not L.methods(cls, name, len(ps)):
                    R.lost(cls + "::" + name)
    for pat, name, n, fn in ENTRIES:
        hit = False
        for cls in L.classes(NS + pat):
            for f in L.methods(cls, name, n):
                hit = True
                a = L.cargs(f, "n")

                def pred(I, f=f, a=a, cls=cls):
                    S = Spec(L, I)
                    return fn(I, [argval(I, f, i, x) for i, x in enumerate(a)], lambda g: S.get(L.method(cls, g, 0)))
                given = None
                if name == "sampleCategorical":
                    given = lambda i, a=a, cls=cls: {mk("deref", a[0][0][1]): PROBS[i % len(PROBS)] if cls.endswith("2>") else
                                                     M(1, 1, [PROBS[i % len(PROBS)].e[0] + PROBS[i % len(PROBS)].e[1]])}
                domain(L, R, fkey(f), f, pred, None, a, given=given)
        if not hit:
            R.lost(pat + "::" + name)


F = Fraction
PROBS = [M(2, 1, x) for x in ([F(1, 2), F(1, 2)], [F(1), F(0)], [F(0), F(1)], [F(3, 2), F(-1, 2)], [F(1, 4), F(3, 4)], [F(1, 2), F(1, 3)],
                              [F(1, 2), F(2, 3)], [F(1, 2), F(1, 2) - F(1, 10 ** 7)], [F(1, 2), F(1, 2) + F(1, 10 ** 7)], [F(1) + F(1, 10 ** 7), -F(1, 10 ** 7)], [F(0), F(0)], [F(-1, 2), F(3, 2)], [F(1, 3), F(2, 3)], [F(1), F(1)])]
