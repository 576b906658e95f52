"""C21 an error term's weight follows its covariance."""
from .err import *

N = 40
BASE = re.compile(r"<base:aslam::backend::ErrorTermFs<\d+>>")


def weights(o):
    return [e for e in flat(o.trace) if e.name in ("setInvR", "setSqrtInvR")]


def covmembers(c):
    """members the weight set at construction is computed from, in order of declaration"""
    L = c.L
    fields = [n for n, f, _ in L.m.all_fields(c.cls) if not BASE.match(n)]
    res = None
    sq = [(n, dims(f["t"])) for n, f, o in L.m.all_fields(c.cls) if n not in c.src and L.m.rec[o].get("inrepo")]
    sq = [(n, d[0]) for n, d in sq if d and d[0] == d[1] > 1]
    if sq and sum(k for _, k in sq) == c.N:
        return [n for n, _ in sq]
    for f in c.ctors():
        for o in c.outs(f):
            ev = weights(o)
            if not ev:
                continue
            a = peel(ev[-1].args[0])
            got = []
            for n in fields:
                v = peel(L.rd(o.st, (n,)))
                if n in c.src or isnum(v):
                    continue
                if contains(a, lambda x: x is v or x is c.member(n)):
                    got.append(n)
            res = got if res is None else [n for n in fields if n in res or n in got]
    return res


def assembled(c, I, vals):
    """the covariance the class reports: its covariance members as a block diagonal"""
    blocks = []
    for v in vals:
        x = I(v)
        if isn(x):
            x = M(1, 1, [x])
        if not isinstance(x, M) or x.r != x.c or any(not isn(y) for y in x.e):
            raise Open("covariance " + fmt(x)[:60])
        blocks.append(x)
    n = sum(b.r for b in blocks)
    if n != c.N:
        raise Open(f"covariance members of {n} dimensions for a residual of {c.N}")
    e = [Fraction(0)] * (n * n)
    k = 0
    for b in blocks:
        for i in range(b.r):
            for j in range(b.r):
                e[(k + i) * n + k + j] = b.e[i * b.r + j]
        k += b.r
    return M(n, n, e)


def compare(R, c, key, w, o, vals, what):
    """after outcome o the weight is the inverse of the covariance made of vals"""
    ev = weights(o)
    opens, okn = {}, 0
    if ev and ev[-1].name == "setSqrtInvR":
        R.und(key, w, "weight set by its square root")
        return
    for i in range(N):
        I = Interp(104729 * i + 3, None, "gen")
        try:
            if not holds(o.facts, I):
                continue
            cov = assembled(c, I, vals)
            want = I.inv(cov)
            if not isinstance(want, M):
                raise Open("inverse")
            got = I(peel(ev[-1].args[0]))
            got = M(1, 1, [got]) if isn(got) else got
            if not isinstance(got, M) or any(not isn(x) for x in got.e):
                raise Open("weight " + fmt(got)[:80])
            if not equal(got, want, 1e-6):
                R.viol(key, w, f"{what} the weight is {fmt(got)[:160]}, the inverse of the covariance is {fmt(want)[:160]}")
                return
            okn += 1
        except Bottom as e:
            opens["bottom " + str(e)] = opens.get("bottom " + str(e), 0) + 1
        except Open as e:
            opens[str(e)] = opens.get(str(e), 0) + 1
    if okn:
        R.ok(key, w, f"{what} inverse on {okn} models")
    else:
        R.und(key, w, f"{opens}")


def one(R, c):
    L, m = c.L, c.L.m
    key = f"{c.group}/{c.short}"
    try:
        cov = covmembers(c)
    except Undecided as e:
        R.und(key, c.cls, str(e))
        return
    # -- construction
    for f in c.ctors():
        for o in c.outs(f):
            if not weights(o):
                R.viol(key + "/constructor", where(f), "construction leaves the weight unset")
                break
            if not cov:
                R.viol(key + "/constructor", where(f), "the weight is not computed from a covariance the object keeps")
                break
            compare(R, c, key + "/constructor", where(f), o, [peel(L.rd(o.st, (n,))) for n in cov], "after construction")
    if not cov:
        return
    # -- copies
    for f in c.copies():
        k = f"{key}/{'copy' if 'ctor' in f['kind'] else 'assignment'}"
        try:
            for o in c.outs(f):
                st = o.st
                bt = [n for n, _, owner in [(b, 0, 0) for b in (f"<base:{x}>" for x in m.bases(c.cls)) if BASE.match(b)]]
                bv = peel(L.rd(st, (bt[0],)))
                src = mk("deref", sym("arg0"))
                own = mk("deref", sym("this"))
                ev = weights(o)
                for n in cov:
                    v = peel(L.rd(st, (n,)))
                    if ev:
                        compare(R, c, k, where(f), o, [peel(L.rd(st, (x,))) for x in cov], "after the copy")
                        break
                    vb = bv.a[0] if bv.op == "fld" else bv
                    vm = v.a[0] if v.op == "fld" else v
                    if vb is vm and vb in (src, own):
                        R.ok(k, where(f), f"weight and {n} come from the same object")
                    elif bv.op == "ctor" and not any(x is src for x in subterms(bv)):
                        R.viol(k, where(f), f"{n} is copied but the weight is not")
                    elif {vb, vm} == {src, own}:
                        R.viol(k, where(f), f"only one of weight and {n} is taken over from the source")
                    else:
                        R.und(k, where(f), f"weight {show(bv)[:80]}, {n} {show(v)[:80]}")
        except Undecided as e:
            R.und(k, where(f), str(e))
    # -- every other public operation
    for f in L.methods(c.cls):
        if "ctor" in f["kind"] or f["kind"] == "dtor" or f.get("static") or f.get("const") or f["n"].startswith("operator") or f.get("cls") != c.cls:
            continue
        if f.get("acc") not in (None, "public") and not f["n"].startswith("evaluate"):
            continue
        k = f"{key}/{f['n']}"
        try:
            outs = L.run(f)
        except Undecided as e:
            R.und(k, where(f), str(e))
            continue
        for o in outs:
            loc = o.loc
            if o.kind == "ret" and f.get("ret", "").rstrip().endswith("&") and loc is not None and loc[0] == THIS[0] and \
                    any(str(x) in cov for x in loc[1][:1]) and not f.get("ret", "").startswith("const "):
                R.viol(k + "/handle", where(f), f"hands out {loc[1][0]} itself for modification: a change through it cannot reach the weight")
                continue
            now = [peel(L.rd(o.st, (n,))) for n in cov]
            same = [v is c.member(n) for n, v in zip(cov, now)]
            if all(same) and not weights(o):
                R.ok(k, where(f), "touches neither")
                continue
            if not weights(o):
                n = cov[same.index(False)]
                # a write of the value already held
                R.viol(k, where(f, o.line), f"changes {n} and leaves the weight at the inverse of the previous covariance ({o.kind})")
                continue
            compare(R, c, k, where(f), o, now, "afterwards")


def check(R):
    R.rule("constructor: the weight set is the inverse of the covariance the object keeps (block diagonal of its covariance members)")
    R.rule("copies take weight and covariance from the same object")
    R.rule("every operation that writes a covariance member sets the weight to the inverse of the new covariance on the same path")
    R.rule("no operation hands out a covariance member for modification")
    for c in classes(R):
        one(R, c)
