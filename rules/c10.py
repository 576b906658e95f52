"""C10 a design variable can always take back its last change."""
from sa.project import load
from .core import *


class VI(CI):
    def op_ctor(self, t, cls, *a):
        if cls.startswith("Eigen::Map<") and a:
            v = self(mk("deref", a[0])) if a[0].op != "addr" else None
            if isinstance(v, Seq):
                n = self(a[1]) if len(a) > 1 and a[1].op != "ctor" else None
                if not isn(n):
                    d = dims(cls)
                    n = d[0] if d and d[0] > 0 else len(v.e)
                if n > len(v.e):
                    raise Bottom("reads past the increment")
                return M(int(n), 1, v.e[:int(n)])
        return super().op_ctor(t, cls, *a)


def check(R):
    R.rule("per vector size: the summary of every changing operation composed with the summary of the revert gives back the value read before, "
           "updates add the increment, written values and parameters are read back, parameters of another shape are refused, construction and copying set "
           "both the value and the one to go back to")
    m = load("core")
    L = Lib(m, R)
    cl = L.classes(NS + r"VectorDesignVariable<\d+>")
    if not cl:
        R.lost("VectorDesignVariable")
    for cls in cl:
        n = int(cls[cls.index("<") + 1:-1])
        one(R, L, cls, n)


def one(R, L, cls, n):
    def meth(name, k):
        return L.method(cls, name, k)
    upd_, rev, setv, setp, getp, getv, dim = (meth("updateImplementation", 2), meth("revertUpdateImplementation", 0), meth("setValue", 1),
                                             meth("setParametersImplementation", 1), meth("getParametersImplementation", 1), meth("getValue", 0),
                                             meth("minimalDimensionsImplementation", 0))
    if None in (upd_, rev, setv, setp, getp, getv, dim):
        return
    from .core import Rnd
    name = cls.split("::")[-1]
    this = mk("deref", sym("this"))
    arg0 = mk("deref", sym("arg0"))

    def vals(r, k, c=1):
        return M(k, c, [Fraction_(r) for _ in range(k * c)])

    def Fraction_(r):
        from fractions import Fraction
        return Fraction(r(41) - 20, 1 + r(7))

    def base(i):
        r = Rnd(i)
        return r, {fld(this, "_value"): vals(r, n), fld(this, "_oldValue"): vals(r, n)}

    def value(S, st):
        return S.get(getv, st=st)

    def mut(key, f, arg, effect, shapes=False):
        def given(i):
            r, g = base(i)
            g.update(arg(r))
            g["r"] = r
            return g

        def first(S, o):
            want = effect(S)
            if want == "throw":
                return "throw"
            if o.kind == "throw":
                return [("x", 0, 0)]
            return [("value", S.call(getv, st=o.st)[1], want)]
        contract(L, R, f"{name}::{key}", f, first, given=given, cls=VI, need=("ret", "throw") if shapes else ("ret",), n=120)
        # revert after the change
        try:
            outs = [o for o in L.run(f) if o.kind == "ret"]
        except Undecided as e:
            return
        for k, o in enumerate(outs):
            def back(S, o2, o=o):
                if holds(o.facts, S.I) is not True:
                    return None
                before = S.I(S.L.run(getv)[0].val)
                if o2.kind == "throw":
                    return [("x", 0, 0)]
                return [("value after going back", S.call(getv, st=o2.st)[1], before)]
            contract(L, R, f"{name}::{key} then revert", rev, back, st=o.st, given=given, cls=VI, n=120, need=("ret",) if len(outs) == 1 else ())

    mut("updateImplementation", upd_, lambda r: {arg0: Seq([Fraction_(r) for _ in range(n)]), sym("arg1"): n},
        lambda S: M(n, 1, [a + b for a, b in zip(S.I(fld(this, "_value")).e, S.I(arg0).e)]))
    mut("setValue", setv, lambda r: {arg0: vals(r, n)}, lambda S: S.I(arg0))

    def par(r):
        k = r(4)
        return {arg0: vals(r, n, 1) if k else vals(r, *((n + 1, 1), (n, 2), (max(1, n - 1), 1 if n > 1 else 3), (1, n) if n > 1 else (2, 2))[r(4)])}
    mut("setParametersImplementation", setp, par, lambda S: S.I(arg0) if (S.I(arg0).r, S.I(arg0).c) == (n, 1) else "throw", shapes=True)

    def only(i):
        return base(i)[1]
    contract(L, R, f"{name}::revertUpdateImplementation", rev, lambda S, o: [("value", S.call(getv, st=o.st)[1], S.I(fld(this, "_oldValue"))),
             ("kept value", S.I(L.rd(o.st, ("_oldValue",))), S.I(fld(this, "_oldValue")))], given=only, cls=VI, n=60)
    contract(L, R, f"{name}::getParametersImplementation", getp, lambda S, o: [("parameters", S.I(L.rd(o.st, (), (("o", sym("arg0")), ()))),
             S.I(fld(this, "_value")))], given=only, cls=VI, n=60)
    contract(L, R, f"{name}::minimalDimensionsImplementation", dim, lambda S, o: [("dimension", S.I(o.val), n)], given=only, cls=VI, n=20)
    for c, st in L.constructed(cls):
        if not L.m.fn[c["id"]]["params"]:
            continue
        w = M(n, 1, [3 + k for k in range(n)])
        key = mk("deref", sym("c." + (c["params"][0]["n"] or "_")))
        contract(L, R, f"{name}::constructor", getv, lambda S, o: [("value", S.I(o.val), S.I(key))], st=st, given={key: w}, cls=VI, n=8)
        contract(L, R, f"{name}::constructor then revert", rev, lambda S, o: [("value", S.call(getv, st=o.st)[1], S.I(key))], st=st, given={key: w},
                 cls=VI, n=8)
