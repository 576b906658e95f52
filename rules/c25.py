"""C25 the calibration vector reports every variable once."""
from .cal import *


def check(R):
    R.rule("every design variable a holder declares is created by each of its constructors")
    R.rule("a function that registers variables of a holder with a batch registers each of them exactly once, in the group it was given, on every path")
    R.rule("every component of the vector of parameters is a component of a variable; each component of each variable is reported exactly once")
    R.rule("after construction and after every batch handed to the estimator the current vector is appended to its history")
    hs = holders(R)
    reg = vec = 0
    for h in hs:
        created(R, h)
        for f in sorted(h.L.m.methods(h.cls), key=lambda f: f["id"]):
            if f.get("body") is None or f["kind"] != "method":
                continue
            try:
                outs = [o for o in h.L.run(f) if o.kind == "ret"]
            except Undecided as e:
                if f["n"] not in ("read",):
                    R.und(f"{h.short}/{f['n']}/summary", where(f), str(e))
                continue
            evs = [(o, [e for e in flat(o.trace) if e.name == "addDesignVariable"]) for o in outs]
            if any(x for _, x in evs):
                reg += 1
                registered(R, h, f, evs)
            if re.search(r"Eigen::(Matrix<double, -1, 1|VectorXd)", f.get("ret", "") or ""):
                vec += 1
                for o in outs:
                    vector(R, h, f, o)
    if hs and not reg:
        R.lost("registration of the variables of a holder")
    if hs and not vec:
        R.lost("vector of parameters of a holder")


def created(R, h):
    for f in h.L.m.methods(h.cls):
        if f["kind"] != "ctor" or f.get("body") is None:
            continue
        key = f"{h.short}/ctor/created"
        try:
            outs = [o for o in h.L.run(f) if o.kind == "ret"]
        except Undecided as e:
            R.und(key, where(f), str(e))
            continue
        for n, (t, d) in h.single.items():
            bad = [o for o in outs if not (isinstance(h.L.rd(o.st, (n,)), T) and h.L.rd(o.st, (n,)).op == "new")]
            opq = [o for o in bad if h.L.rd(o.st, (n,)).op not in ("null", "sym", "fld", "deref", "empty", "num", "uninit")]
            if opq:
                R.und(f"{key}/{n}", where(f), "value " + show(h.L.rd(opq[0].st, (n,)))[:100])
            else:
                R.result(not bad, f"{key}/{n}", where(f), "variable " + n + (" is created" if not bad else " is null on a returning path"))


def registered(R, h, f, evs):
    key = f"{h.short}/{f['n']}/registered"
    for o, es in evs:
        if not es and "throw" in o.kind:
            continue
        count, opens = {}, []
        for alt in alternatives(o.trace):
            for k in h.all():
                count.setdefault(k, set())
            c = {}
            for e in alt:
                if e.name != "addDesignVariable":
                    continue
                k = h.member(e.args[0]) if e.args else None
                if k is None:
                    opens.append(show(e.args[0])[:80] if e.args else "?")
                    continue
                c[k] = c.get(k, 0) + 1
                grp = e.args[1] if len(e.args) > 1 else None
                if grp is not sym("arg1"):
                    (R.und if grp is not None and not isnum(grp) and not contains(grp, lambda x: x.op == "sym") else R.viol)(
                        f"{key}/{h.what(k)}/group", where(f, e.line), "registered in group " + (show(grp) if grp is not None else "(default)") + " instead of the group given")
            for k in h.all():
                count[k].add(c.get(k, 0))
        for k in h.all():
            ns = count.get(k, {0})
            if opens and ns != {1}:
                R.und(f"{key}/{h.what(k)}", where(f), "registers " + opens[0])
            else:
                R.result(ns == {1}, f"{key}/{h.what(k)}", where(f), "registered once on every path" if ns == {1} else
                         f"registered {'/'.join(map(str, sorted(ns)))} times")


def alternatives(tr):
    """event sequences of a trace; a loop contributes one pass of each alternative"""
    res = [[]]
    for e in tr:
        if isinstance(e, LoopEv):
            subs = []
            for k, fs, t in e.alts:
                subs += alternatives(t)
            res = [r + s for r in res for s in (subs or [[]])]
        else:
            res = [r + [e] for r in res]
        if len(res) > 256:
            res = res[:256]
    return res


def vector(R, h, f, o):
    key = f"{h.short}/{f['n']}/components"
    I = CI(1, None, "gen")
    I.holder = h
    try:
        v = I(o.val)
    except Outside as e:
        R.viol(key, where(f, o.line), f"writes or reads a component that is not there ({e})")
        return
    except (Open, Bottom) as e:
        R.und(key, where(f, o.line), str(e)[:120])
        return
    if not isinstance(v, M) or v.c != 1:
        R.und(key, where(f, o.line), "vector " + fmt(v)[:100])
        return
    src = {}
    for k in h.all():
        for i in range(h.dim(k)):
            src[I.uniq(k, i)] = (k, i)
    seen, opens = {}, []
    for j, x in enumerate(v.e):
        if isinstance(x, Tok):
            if x.k[:1] == ("unset",):
                R.viol(f"{key}/{j}", where(f, o.line), f"component {j} is never assigned")
            else:
                opens.append(j)
        elif isn(x) and Fraction(x) in src:
            seen.setdefault(src[Fraction(x)], []).append(j)
        elif isn(x):
            R.viol(f"{key}/{j}", where(f, o.line), f"component {j} is not the value of a design variable")
        else:
            opens.append(j)
    for (k, i) in src.values():
        # a table is reported entry by entry: the entry asked for
        p = seen.get((k, i), [])
        kk = f"{key}/{h.what(k)}[{i}]"
        if not p and opens:
            R.und(kk, where(f, o.line), f"components {opens} not resolved")
        else:
            R.result(len(p) == 1, kk, where(f, o.line), f"reported as component {p[0]}" if len(p) == 1 else
                     "never reported" if not p else f"reported as components {p}")
