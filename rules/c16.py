"""C16 timestamps are totally ordered consistently with their value."""
from sa.lib import *
from fractions import Fraction
from sa.project import load

class Fine(Interp):
    """single precision rounds"""
    lossy = True


CMP = {"operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b, "operator<": lambda a, b: a < b,
       "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b, "operator>=": lambda a, b: a >= b}
ARI = {"operator+": lambda a, b: a + b, "operator-": lambda a, b: a - b}
COMP = {"operator+=": lambda a, b: a + b, "operator-=": lambda a, b: a - b}
CLS = "aslam::calibration::Timestamp"


def check(R):
    R.rule("every comparison operator of Timestamp returns, on every path, the comparison of the represented times (getSeconds) it is "
           "named after, for both operand types, and modifies nothing")
    R.rule("every sum/difference operator yields exactly represented time +/- amount; the compound form stores that value and returns the object")
    R.rule("construction, assignment and conversion to double preserve the represented time")
    m = load("lib")
    L = Lib(m, R)
    sec = L.method(CLS, "getSeconds", 0)
    if sec is None:
        return
    for k, this in enumerate((THIS, OTHER)):
        TIMES[k] = [o.val for o in L.run(sec, this=this) if o.kind == "ret" and isinstance(o.val, T)]
    n = 0
    for tab, kind in ((CMP, "cmp"), (ARI, "ari"), (COMP, "comp")):
        for op, fn in tab.items():
            fs = L.methods(CLS, op, 1)
            if not fs:
                R.lost("Timestamp::" + op)
            for f in fs:
                n += 1
                operator(R, L, sec, f, op, fn, kind)
    # free operators with a timestamp on either side
    for f in m.fn.values():
        if f["kind"] == "fn" and f["n"] in CMP and len(f["params"]) == 2 and any("Timestamp" in p["t"] for p in f["params"]):
            free_op(R, L, sec, f, CMP[f["n"]])
    for f in L.methods(CLS, "operator double", 0):
        def spec(S, o):
            return [("value", S.I(o.val), S.get(sec))]
        contract(L, R, "Timestamp::operator double", f, spec, n=60, cls=Fine, given=stamps)
    for f in L.methods(CLS, kind=("ctor",)):
        if len(f["params"]) == 1 and f["params"][0]["tk"] in ("f", "i", "u"):
            def spec(S, o, f=f):
                return [("represented time", S.get(sec, o.st), S.I(sym("arg0")))]
            contract(L, R, "Timestamp::Timestamp(seconds)", f, spec, n=60, cls=Fine, given=stamps)
    for f in L.methods(CLS, "operator=", 1):
        arg = f["params"][0]

        def spec(S, o, f=f, arg=arg):
            want = S.get(sec, this=OTHER) if "Timestamp" in arg["t"] else S.I(sym("arg0"))
            return [("represented time", S.get(sec, o.st), want)]
        contract(L, R, f"Timestamp::operator=({arg['t']})", f, spec, n=60, cls=Fine, given=stamps, args=(OTHER,) if "Timestamp" in arg["t"] else None)


STAMPS = [(Fraction(x), Fraction(y)) for x, y in
          ((1400000000, Fraction(14000000001, 10)), (Fraction(14000000001, 10), 1400000000), (16777217, 16777216), (16777216, 16777217),
           (1400000000, 1400000000), (Fraction(1, 10), Fraction(100000001, 1000000000)), (-16777217, -16777216))]


TIMES = [[], []]


def stamps(i):
    """every fourth model: times of the magnitude of a real clock that are close to one another"""
    if i % 4:
        return None
    a, b = STAMPS[i // 4 % len(STAMPS)]
    g = {t: a for t in TIMES[0]}
    for k in TIMES[1] + [sym("arg0"), mk("deref", sym("arg0"))]:
        g[k] = b
    return g


def rhs_of(S, sec, f):
    p = f["params"][0]
    if "Timestamp" in p["t"]:
        return S.get(sec, this=OTHER)
    return S.I(sym("arg0")) if p["ref"] == "v" else S.I(mk("deref", sym("arg0")))


def unchanged(S, sec, o):
    return [("receiver's time", S.get(sec, o.st), S.get(sec)), ("operand's time", S.get(sec, o.st, this=OTHER), S.get(sec, this=OTHER))]


def operator(R, L, sec, f, op, fn, kind):
    ts = "Timestamp" in f["params"][0]["t"]

    def spec(S, o):
        a, b = S.get(sec), rhs_of(S, sec, f)
        want = fn(a, b)
        if kind == "cmp":
            return [("result", S.I.bool(o.val) if isinstance(o.val, T) else None, want)] + unchanged(S, sec, o)
        if kind == "ari":
            return [("result", observed(L, S, sec, f, o), want)] + unchanged(S, sec, o)
        out = [("represented time", S.get(sec, o.st), want)]
        if f.get("rref") in ("r", "cr"):
            out.append(("returned object", 1 if o.loc == THIS else 0, 1))
        return out
    contract(L, R, f"Timestamp::{op}({'Timestamp' if ts else 'seconds'})", f, spec, n=160, cls=Fine, given=stamps, args=(OTHER,) if ts else None)


def observed(L, S, sec, f, o):
    if "Timestamp" in f["ret"]:
        s, l = L.E.tmp(o.st, o.val)
        return S.get(sec, s, this=l)
    return S.I(o.val)


def free_op(R, L, sec, f, fn):
    locs = [("o", sym("lhs")), ("o", sym("rhs"))]

    def spec(S, o):
        v = []
        for p, r in zip(f["params"], locs):
            v.append(S.get(sec, this=(r, ())) if "Timestamp" in p["t"] else S.I(r[1]))
        return [("result", S.I.bool(o.val), fn(*v))]
    args = tuple((r, ()) if "Timestamp" in p["t"] else r[1] for p, r in zip(f["params"], locs))
    contract(L, R, f"{f['n']}({f['params'][0]['t']},{f['params'][1]['t']})", f, spec, n=160, cls=Fine, given=stamps, args=args)
