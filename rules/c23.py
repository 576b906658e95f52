"""C23 each measurement is used once, in the batch of its window."""
from sa.ev import Seq
from .cal import *

N = 96


def check(R):
    R.rule("a measurement handed in is appended, with its own time, to one buffer; every other buffer keeps its content, or is emptied when a batch was formed first")
    R.rule("a batch is formed when the window has elapsed and only then; its window starts at the time of the measurement that closed the previous one")
    R.rule("every buffer is traversed into the batch unless an option excludes it; all residuals, both splines and all calibration variables go to the batch handed to the estimator, the groups are ordered before that, the calibration group last")
    R.rule("when a batch was formed all buffers are empty and the histories grew by one entry taken after the update; otherwise buffers and histories are unchanged")
    R.rule("an accessor returns the buffer or record of the sensor it is named after; clearing empties every prediction record; pending measurements are reported exactly when a buffer is not empty")
    hs = {(h.group, h.cls): h for h in holders(R)}
    for c in calibrators(R):
        for f, e in c.undecided.values():
            R.und(f"{c.short}/{f['n']}/summary", where(f), e)
        fd = feeders(c)
        if not fd:
            R.lost(f"{c.short}: methods that take measurements")
            continue
        bufs = sorted({b for _, bs in fd for b in bs})
        c.bufs = bufs
        c.recs = records(c)
        c.hist = [n for n in c.seqs if n not in bufs and not any(n in r for r in c.recs.values())]
        closers = c.having("addBatch", 0)
        closers = [x for x in closers if any(e.name == "addErrorTerm" for o in x[1] for e in flat(o.trace))]
        if not closers:
            R.lost(f"{c.short}: the method that forms a batch")
            continue
        for f, bs in fd:
            feeder(R, c, f, bs, closers)
        for b in bufs:
            fs = [f["n"] for f, bs in fd if b in bs]
            R.result(len(fs) == 1, f"{c.short}/{b}/feeder", where(fd[0][0]), f"fed by {', '.join(fs)}")
        for f, outs in closers:
            closer(R, c, f, outs, [h for h in hs.values() if h.group == c.group])
        accessors(R, c, fd)
        clears(R, c)
        pending(R, c)


# -------------------------------------------------------------------- feeders
def params(f):
    """(time symbol, measurement symbol, index symbols)"""
    t = m = None
    idx = []
    for i, p in enumerate(f["params"]):
        ty = p["t"]
        if re.search(r"(const .*&|Measurement)", ty) and m is None and not re.match(r"(long|int|double|unsigned)", ty.replace("const ", "")):
            m = sym(f"arg{i}")
        elif re.match(r"(const )?(long|.*NsecTime)", ty) and t is None:
            t = sym(f"arg{i}")
        else:
            idx.append(sym(f"arg{i}"))
    return t, m, idx


def push_of(v):
    """(container before, element, index) of an append; None otherwise"""
    if v.op == "mut" and v.a[0] in ("push_back", "emplace_back"):
        return v.a[1], v.a[2:], None
    if v.op == "upd" and len(v.a[1]) == 1 and isinstance(v.a[2], T):
        x = v.a[2]
        if x.op == "mut" and x.a[0] in ("push_back", "emplace_back") and x.a[1].op == "idx" and x.a[1].a[1:] == v.a[1]:
            return (v.a[0], x.a[2:], v.a[1][0]) if x.a[1].a[0] is v.a[0] else (None, x.a[2:], v.a[1][0])
    return None


def feeders(c):
    """methods that append one of their arguments to a sequence member: [(f, {member})]"""
    out = []
    for f, outs in c.meth.values():
        t, m, idx = params(f)
        if m is None or t is None:
            continue
        bs = set()
        for o in outs:
            for n in c.seqs:
                v = c.L.rd(o.st, (n,))
                if isinstance(v, T) and v is not this(n):
                    p = push_of(v)
                    if p and contains(p[1], lambda x: x is m):
                        bs.add(n)
        if bs:
            out.append((f, bs))
    return out


def hit(o, name):
    return [e for e in flat(o.trace) if e.name == name]


def element(e):
    """(first, second) of an appended pair"""
    if len(e) == 2:
        return e
    v = e[0]
    if v.op == "rec":
        d = dict(v.a[1])
        return d.get("first"), d.get("second")
    if v.op in ("ctor", "call") and len(v.a) == 3:
        return v.a[1], v.a[2]
    return None


class W(Interp):
    """elapsed times and windows are drawn on one scale"""

    def fn(self, n, v):
        if n == "nsecToSec" and len(v) == 1 and isn(v[0]):
            return v[0]
        return Interp.fn(self, n, v)


def feeder(R, c, f, bs, closers):
    key = f"{c.short}/{f['n']}"
    t, m, idx = params(f)
    outs = c.meth[f["id"]][1]
    for o in outs:
        closed = bool(hit(o, "addBatch"))
        w = where(f, o.line)
        n = 0
        for b in c.bufs:
            v = c.L.rd(o.st, (b,))
            p = push_of(v) if isinstance(v, T) and v is not this(b) else None
            base = v
            if p:
                base = p[0]
                n += 1
                el = element(p[1])
                if el is None or el[0] is None:
                    R.und(key + "/entry", w, show(mk("x", p[1]))[:100])
                else:
                    R.result(el[0] is t, key + "/time", w, "the entry carries the time handed in" if el[0] is t else "the entry carries the time " + show(el[0])[:100])
                    val = el[1]
                    while isinstance(val, T) and val.op in ("deref", "ctor") and isinstance(val.a[-1], T):
                        val = val.a[-1]
                    R.result(val is m, key + "/content", w, "the entry is the measurement handed in" if val is m else "the entry is " + show(el[1])[:100])
                if idx and p[2] is not None:
                    R.result(p[2] in idx, key + "/sensor", w, "stored under the sensor index handed in" if p[2] in idx else "stored under " + show(p[2])[:80])
            want = mk("empty") if closed else this(b)
            if isinstance(base, T) and (base is want or base.op == "empty" and closed):
                R.ok(f"{key}/{b}", w, "emptied with its batch" if closed else "content kept")
            elif base is None or not isinstance(base, T) or base.op in ("fold", "loop", "after"):
                R.und(f"{key}/{b}", w, show(v)[:120])
            elif closed and base is this(b):
                R.viol(f"{key}/{b}", w, f"{b} keeps the measurements of the batch that was formed")
            elif not closed and base.op == "empty":
                R.viol(f"{key}/{b}", w, f"{b} is emptied although no batch was formed")
            else:
                R.viol(f"{key}/{b}", w, f"{b} becomes " + show(v)[:150])
        R.result(n == 1, key + "/stored", w, f"the measurement is stored {n} time" + ("s" if n != 1 else ""))
    window(R, c, key, f, outs, t, closers)


def starts(c, outs, t):
    """members of time type that hold the handed-in time on some outcome and not on all: start of the window"""
    full, part = [], []
    for n, ty in c.fields.items():
        if not re.match(r"(long|.*NsecTime)$", ty):
            continue
        k = sum(c.L.rd(o.st, (n,)) is t for o in outs)
        if k == len(outs):
            full.append(n)
        elif k:
            part.append(n)
    return full, part


def window(R, c, key, f, outs, t, closers):
    full, part = starts(c, outs, t)
    if len(part) != 1:
        R.und(key + "/window", where(f), f"start of the window: {part}")
        return
    s = part[0]
    opts = [fld(this(n), x["n"]) for n, ty in c.fields.items() for x in (c.L.m.rec.get(ty) or {"fields": []})["fields"] if "window" in x["n"].lower() or "duration" in x["n"].lower()]
    if len(opts) != 1:
        R.und(key + "/window", where(f), "no single option for the length of the window")
        return
    refusing = [o for g, os_ in closers for o in os_ if not hit(o, "addBatch")]
    seen, opens, bad = {True: 0, False: 0}, {}, None
    for i in range(N):
        I = W(7919 * i + 5, None, ("gen", "mix", "pos")[i % 3])
        I.given = dict(I.given or {})
        r = I.rng if hasattr(I, "rng") else None
        k = i % 4
        start = Fraction(-1) if k == 0 else Fraction(0 if k == 2 else 10 + i)
        now = (0 if k == 2 else Fraction(10 + i)) + Fraction((i * 7) % 23)
        el = Fraction(0) if k == 0 else now - start
        wd = [el, el + 1, max(el - 1, 0), Fraction(0), el + Fraction(1, 2), el - Fraction(1, 2)][(i // 4) % 6]
        for a, v in ((t, now), (this(s), start), (opts[0], wd)):
            I.given[a] = v
        try:
            xs = [o for o in outs if holds(_F(o.facts.d), I)]
            unk = [o for o in outs if o not in xs and holds(_F(o.facts.d), I) is None]
            if len(xs) != 1 or unk:
                closed = {bool(hit(o, "addBatch")) for o in xs + unk}
                if len(closed) != 1:
                    raise Open(f"{len(xs)} paths")
                cl = closed.pop()
            else:
                cl = bool(hit(xs[0], "addBatch"))
            seen[cl] += 1
            if cl and el < wd:
                bad = f"a batch is formed {fmt(el)} after the start of the window although the window lasts {fmt(wd)}"
                break
            if not cl and el >= wd and not any(holds(_F(o.facts.d), I) is not False for o in refusing):
                bad = f"no batch is formed {fmt(el)} after the start of the window although the window lasts {fmt(wd)}"
                break
            for o in xs:
                v = c.L.rd(o.st, (s,))
                want = now if cl or k == 0 else start
                got = I(v)
                if isn(got) and got != want:
                    bad = f"the window starts at {fmt(got)} instead of {fmt(want)} when " + ("a batch was formed" if cl else "the first measurement arrived" if k == 0 else "none was formed")
            if bad:
                break
        except (Open, Bottom) as e:
            opens[str(e)[:80]] = opens.get(str(e)[:80], 0) + 1
    if bad:
        R.viol(key + "/window", where(f), bad)
    elif all(seen.values()):
        R.ok(key + "/window", where(f), f"agrees with the elapsed time in {sum(seen.values())} cases")
    else:
        R.und(key + "/window", where(f), f"{seen} {opens}")


class _F:
    def __init__(self, fs):
        self.d = dict(fs)


# --------------------------------------------------------------------- closers
def spline_of(c, t, st):
    """spline member whose object the term is a variable of"""
    n = None
    for x in subterms(t) if isinstance(t, T) else ():
        if x.op == "new" and "Spline" in str(x.a[0]) and "Problem" not in str(x.a[0]):
            n = x
            break
    r = []
    for s in c.splines:
        v = c.L.rd(st, (s,))
        if isinstance(t, T) and isinstance(v, T) and (v is n and v is not None or contains(t, lambda x: x is this(s))):
            r.append(s)
    return r[0] if len(r) == 1 else None


def walk(tr, loops_=()):
    for e in tr:
        if isinstance(e, LoopEv):
            for k, fs, t in e.alts:
                yield from walk(t, loops_ + ((e, (k, fs)),))
        else:
            yield e, loops_


def closer(R, c, f, outs, hs):
    key = f"{c.short}/{f['n']}"
    present = {}
    for o in outs:
        adds = hit(o, "addBatch")
        w = where(f, o.line)
        if not adds:
            for n in c.bufs + c.hist:
                v = c.L.rd(o.st, (n,))
                R.result(v is this(n), f"{key}/refused/{n}", w, "unchanged when no batch is formed" if v is this(n) else f"{n} is changed although no batch is formed")
            continue
        R.result(len(adds) == 1, key + "/addBatch", w, f"{len(adds)} batches are handed to the estimator")
        b = adds[0].args[0]
        fresh = b.op == "new"
        R.result(fresh, key + "/fresh", where(f, adds[0].line), "a new problem is handed over" if fresh else "the problem handed over is " + show(b)[:100])
        # everything goes to that batch, before it is handed over
        order = [e for e, _ in walk(o.trace)]
        pos = order.index(adds[0])
        for e, ls in walk(o.trace):
            if e.name in ("addErrorTerm", "addDesignVariable", "setGroupsOrdering"):
                ok = e.recv is b and order.index(e) < pos
                R.result(ok, f"{key}/{e.name}", where(f, e.line), "given to the batch before it is handed over" if ok else
                         "given to another problem" if e.recv is not b else "given to the batch after it was handed to the estimator")
        # splines and calibration variables
        gs, gd = {}, {}
        other = []
        for e, ls in walk(o.trace):
            if e.name != "addDesignVariable" or e.recv is not b:
                continue
            grp = e.args[1] if len(e.args) > 1 else num(0)
            s = spline_of(c, e.args[0], o.st)
            k = next(((h, h.member2(e.args[0])) for h in hs if h.member2(e.args[0]) is not None), None)
            if k:
                gd.setdefault((k[0].short, k[0].what(k[1])), []).append((grp, e))
            elif s and ls:
                l = ls[-1][0]
                full = l.rng is not None and l.rng.op == "range" and contains(l.rng, lambda x: x.op in ("call", "ret") and "numDesignVariables" in str(x.a[0])) and l.rng.a[0] is num(0)
                if not all(any(ev.name == "addDesignVariable" for ev in flat(t)) for kk, fs, t in l.alts):
                    full = False
                elif l.rng is None or l.rng.op != "range":
                    full = None
                gs.setdefault(s, []).append((grp, e, full))
            else:
                other.append(e)
        for s in c.splines:
            x = gs.get(s, [])
            if not x and other:
                R.und(f"{key}/spline/{s}", w, "adds " + show(other[0].args[0])[:80])
            else:
                n = len({id(e) for _, e, _ in x})
                if n == 1 and x[0][2] is None:
                    R.und(f"{key}/spline/{s}", w, "each turn of a loop over its variables adds one; the bound of the loop is not followed")
                    continue
                R.result(n == 1 and x[0][2], f"{key}/spline/{s}", w, "all its variables are added once" if n == 1 and x[0][2] else f"added {n} times" if n != 1 else "not all of its variables are added")
        for h in hs:
            if not any(k[0] == h.short for k in gd) and not any(sp(t) == h.cls or t == h.cls for t in c.fields.values()):
                continue
            for k in h.all():
                x = gd.get((h.short, h.what(k)), [])
                if not x and other:
                    R.und(f"{key}/variable/{h.what(k)}", w, "adds " + show(other[0].args[0])[:80])
                else:
                    R.result(len(x) == 1, f"{key}/variable/{h.what(k)}", w, "added once" if len(x) == 1 else f"calibration variable added {len(x)} times")
        g1 = {g for x in gs.values() for g, *_ in x}
        g2 = {g for x in gd.values() for g, _ in x}
        so = hit(o, "setGroupsOrdering")
        if len(so) != 1:
            R.result(False if not so else None, key + "/groups", w, f"the order of the groups is set {len(so)} times") if not so else R.und(key + "/groups", w, "ordered several times")
        else:
            ls_ = listing(so[0].args[0])
            if ls_ is None or not all(isnum(g) for g in g1 | g2):
                R.und(key + "/groups", where(f, so[0].line), show(so[0].args[0])[:100])
            else:
                ids = {int(g.a[0]) for g in g1 | g2}
                ok = sorted(ls_) == sorted(ids) and len(g2) == 1 and not g1 & g2 and ls_[-1] == int(next(iter(g2)).a[0])
                R.result(ok, key + "/groups", where(f, so[0].line), f"groups ordered {ls_}, calibration variables in {sorted(int(g.a[0]) for g in g2)}, splines in {sorted(int(g.a[0]) for g in g1)}")
        # buffers
        for n in c.bufs:
            inloop = [ls for e, ls in walk(o.trace) if e.name == "addErrorTerm" and any(l.rng is not None and c.buffer_of(l.rng) == n for l, _ in ls)]
            present.setdefault(n, []).append((o, bool(inloop)))
            for ls in inloop[:1]:
                l = next(l for l, _ in ls if l.rng is not None and c.buffer_of(l.rng) == n)
                ok = l.rng.op == "range" and l.rng.a[0] is num(0) and len(l.rng.a) == 2 and l.rng.a[1].op in ("size", "call")
                brk = [k for k, fs, t in l.alts if k not in ("n", "c", "next", "continue")]
                (R.ok if ok and not brk else R.und if not ok else R.viol)(f"{key}/{n}/all", where(f, l.line), "every measurement is considered" if ok and not brk else
                                                                      ("range " + show(l.rng)[:80]) if not ok else f"the loop over {n} is left early ({brk[0]})")
            v = c.L.rd(o.st, (n,))
            ok = isinstance(v, T) and v.op == "empty"
            (R.result if ok or v is this(n) else lambda x, *a: R.und(*a))(ok, f"{key}/{n}/emptied", w, "emptied" if ok else f"{n} is not emptied: its measurements are used again in the next batch")
        for n in c.hist:
            v = c.L.rd(o.st, (n,))
            k = growth(v, this(n))
            if k is None:
                R.und(f"{key}/history/{n}", w, show(v)[:100])
            else:
                R.result(k == 1, f"{key}/history/{n}", w, f"{n} grows by {k} entries per batch")
            p = push_of(v) if isinstance(v, T) else None
            if p and len(p[1]) == 1 and re.search(r"vector<double", c.fields[n]):
                x = p[1][0]
                ok = x.op == "fld" and x.a[1] == "informationGain" and contains(x.a[0], lambda y: y.op == "ret" and y.a[0] == "addBatch")
                R.result(ok, f"{key}/history/{n}/entry", w, "the information gain of the batch" if ok else "records " + show(x)[:80])
        for e, ls in walk(o.trace):
            if e.name in ("push_back", "emplace_back") and any(n in hname(e.recv) for n in c.hist):
                ok = order.index(e) > pos
                R.result(ok, f"{key}/history/{hname(e.recv)}/order", where(f, e.line), "recorded after the update" if ok else "recorded before the batch is handed to the estimator")
    for n, xs in present.items():
        w = where(f)
        if all(p for _, p in xs):
            R.ok(f"{key}/{n}/used", w, "takes part in every batch")
        elif not any(p for _, p in xs):
            R.viol(f"{key}/{n}/used", w, f"the measurements of {n} take part in no batch but are discarded with it")
        else:
            a = excuse(c, xs)
            R.result(a is not None, f"{key}/{n}/used", w, f"takes part unless {show(a)[:60]} excludes it" if a is not None else f"{n} does not take part on some paths that no option selects")


def hname(r):
    """member an address term designates"""
    x = getattr(r, "a", None)
    return " ".join(re.findall(r"[A-Za-z_0-9]+", show(r))) if isinstance(r, T) else " ".join(re.findall(r"[A-Za-z_0-9]+", str(r)))


def listing(t):
    for x in subterms(t):
        if x.op == "ilist" and all(isinstance(y, T) and isnum(y) for y in x.a):
            return [int(y.a[0]) for y in x.a]
    if t.op == "mat" and all(isnum(y) for y in t.a[-1]):
        return [int(y.a[0]) for y in t.a[-1]]
    return None


def growth(v, old):
    """number of entries appended per element"""
    if v is old:
        return 0
    if not isinstance(v, T):
        return None
    p = push_of(v)
    if p and p[0] is not None:
        k = growth(p[0], old)
        return None if k is None else k + 1
    if v.op == "fold" and v.a[1] is old:
        acc = [x for x in subterms(v.a[2]) if x.op == "sym" and str(x.a[0]).startswith("$acc") or x.op == "acc"]
        for a in acc:
            k = growth(v.a[2], a)
            if k is not None:
                return k
    return None


def excuse(c, xs):
    """a fact on options only that decides the participation"""
    on = [n for n, t in c.fields.items() if "Options" in t]
    cand = set()
    for o, p in xs:
        for a in o.facts.d:
            fs = {x for x in subterms(a) if x.op == "fld"}
            tops = {x for x in fs if x.a[0] is mk("deref", sym("this"))}
            if tops and all(x.a[1] in on for x in tops):
                cand.add(a)
    for a in cand:
        vs = {}
        for o, p in xs:
            vs.setdefault(o.facts.d.get(a), set()).add(p)
        if None not in vs and all(len(x) == 1 for x in vs.values()) and len(vs) == 2 and len({next(iter(x)) for x in vs.values()}) == 2:
            return a
    return None


# ----------------------------------------------------- accessors, clear, pending
def records(c):
    """buffer -> its prediction records"""
    from .c22 import table
    out = {}
    for f, outs in c.having("evaluateError", 0):
        for b, ls in table(c, outs, "evaluateError").items():
            for l in ls:
                for nx in l.nxt or ():
                    for ph, v in nx:
                        for n in c.seqs:
                            if ph.op == "phi" and contains(ph.a[2], lambda x: x is this(n)) and v is not ph and n != b:
                                out.setdefault(b, set()).add(n)
    return out


def accessors(R, c, fd):
    stems = {}
    for f, bs in fd:
        if len(bs) == 1:
            stems[re.sub(r"^add|Measurements?$", "", f["n"]).lower()] = next(iter(bs))
    for f, outs in c.meth.values():
        x = re.match(r"get(\w+?)(Measurements?|Predictions?|PredictionErrors2?|PredictionsErrors2?)$", f["n"])
        if not x or x.group(1).lower() not in stems:
            continue
        b = stems[x.group(1).lower()]
        role = x.group(2)
        for o in outs:
            v = o.val
            got = None
            for n in c.seqs:
                if isinstance(v, T) and (v is this(n) or contains(v, lambda y: y is this(n))):
                    got = n
            key = f"{c.short}/{f['n']}/returns"
            if got is None:
                R.und(key, where(f), show(v)[:80] if v is not None else "nothing")
                continue
            if role.startswith("Measurement"):
                R.result(got == b, key, where(f), f"returns {got}")
            else:
                kind = c.fields[got]
                wk = r"vector<double" if role.endswith("2") else r"vector<Eigen" if "Errors" in role else r"vector<std::pair"
                ok = got in c.recs.get(b, ()) and re.search(wk, kind) is not None
                if not c.recs.get(b):
                    R.und(key, where(f), "no records of " + b)
                else:
                    R.result(ok, key, where(f), f"returns {got}" + ("" if ok else f", not the record of {b}"))


def clears(R, c):
    allr = sorted({n for r in c.recs.values() for n in r})
    for f, outs in c.meth.values():
        if f["params"] or f.get("ret", "") != "void":
            continue
        for o in outs:
            if hit(o, "addBatch") or hit(o, "evaluateError"):
                continue
            for group, what in ((allr, "prediction record"), (c.bufs, "buffer")):
                em = [n for n in group if isinstance(c.L.rd(o.st, (n,)), T) and c.L.rd(o.st, (n,)).op == "empty"]
                if not em:
                    continue
                for n in group:
                    v = c.L.rd(o.st, (n,))
                    R.result(n in em, f"{c.short}/{f['n']}/{n}", where(f), "emptied" if n in em else f"the {what} {n} keeps its content while others are emptied")


def pending(R, c):
    for f, outs in c.meth.values():
        if f["params"] or f.get("ret", "") != "bool" or not any(isinstance(o.val, T) and c.buffer_of(o.val) or any(c.buffer_of(a) for a in o.facts.d) for o in outs):
            continue
        key = f"{c.short}/{f['n']}"
        bad, opens, seen = None, {}, set()
        for i in range(2 ** min(len(c.bufs), 6)):
            I = Interp(7919 * i + 5, None, "gen")
            I.given = dict(I.given or {})
            for k, b in enumerate(c.bufs):
                I.given[this(b)] = Seq([Tok("m", j) for j in range(((i >> k) & 1) * (1 + i % 2))])
            try:
                xs = [o for o in outs if holds(_F(o.facts.d), I)]
                if len(xs) != 1:
                    raise Open(f"{len(xs)} paths")
                got = bool(I(xs[0].val))
                want = i != 0
                seen.add(i)
                if got != want:
                    bad = f"reports {str(got).lower()} when the non-empty buffers are {[b for k, b in enumerate(c.bufs) if (i >> k) & 1]}"
                    break
            except (Open, Bottom) as e:
                opens[str(e)[:80]] = 1
        if bad:
            R.viol(key, where(f), bad)
        elif not seen or opens:
            R.und(key, where(f), str(opens))
        else:
            R.ok(key, where(f), f"true exactly when a buffer is not empty ({len(seen)} combinations)")
