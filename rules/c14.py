"""C14 no object is born with indeterminate state."""
from sa.lib import *
from sa.project import load
from . import GROUPS
from .c13 import leaves
from sa.terms import proxy_positions
from .c08 import fkey


def dekeep(b, own):
    """recurrence body without the branches that merely keep the old value"""
    if b is own:
        return num(0)
    if b.op == "ite":
        return mk("ite", b.a[0], dekeep(b.a[1], own), dekeep(b.a[2], own))
    return b


def uninit(t):
    """names of never-written values a term certainly depends on; values that only a zero-trip loop would leave unwritten are skipped"""
    found = []
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        root = x
        while root.op == "upd":
            root = root.a[0]
        if x.op == "upd" and root.op == "uninit" and covered(x, root):
            while x.op == "upd":
                walk(x.a[2])
                x = x.a[0]
        elif x.op == "uninit":
            found.append(str(x.a[0]))
        elif x.op in ("phi", "after"):
            return
        elif x.op == "fold":
            if contains(dekeep(x.a[2], sym("$acc")), lambda y: y is sym("$acc")):
                walk(x.a[1])
            walk(x.a[2])
        elif x.op == "loop":
            # an initial value that the loop replaces before reading it is only seen when the loop never runs
            walk(x.a[5])
            own = sym("$L%d.%d" % (x.a[0], x.a[1]))
            if any(contains(dekeep(b, own), lambda y: y is own) for b in x.a[4]):
                walk(x.a[3][x.a[1]])
            walk(x.a[4])
        elif x.op == "setrange":
            walk(x.a[2])
        else:
            for y in x.a:
                walk(y)
    walk(t)
    return found


def covered(x, root):
    """every element of a matrix of known run-time size is assigned by the chain of updates x"""
    d = root.a[1:]
    if not d or not all(isinstance(v, T) and isnum(v) for v in d):
        return False
    r, c = int(d[0].a[0]), int(d[1].a[0]) if len(d) > 1 else 1
    left = set(range(r * c))
    while x.op == "upd":
        i = x.a[1] if isinstance(x.a[1], tuple) else (x.a[1],)
        sel = None
        if i and isinstance(i[0], T) and i[0].op == "str":
            sel, i = i[0].a[0], i[1:]
        if all(isinstance(k, T) and isnum(k) for k in i):
            i = [int(k.a[0]) for k in i]
            if sel is not None:
                p = proxy_positions(sel, i, r, c)
                left -= set(p[0]) if p else set()
            elif len(i) == 1:
                left.discard(i[0])
            elif len(i) == 2:
                left.discard(i[0] * c + i[1])
        x = x.a[0]
    return not left


def check(R):
    R.rule("at every normal exit of every constructor no member (records expanded) is, or was computed from, a value that was never written")
    R.rule("no operation returns, stores into its receiver or an argument, or branches on a value that was never written")
    seen = set()
    for g in GROUPS:
        m = load(g)
        L = Lib(m, R)
        for fid, f in sorted(m.fn.items(), key=lambda x: (x[1]["file"], x[1]["line"], x[0])):
            at = (fid, f["file"], f["line"])
            if at in seen or not f["file"].startswith(REPO) or "lambda" in fid:
                continue
            seen.add(at)
            if f.get("defaulted") or f.get("deleted"):
                continue
            one(R, L, f)
        implicit(R, m, L, seen)


def plain(rec):
    """data carriers without a member function of their own: what reads them is judged where they are filled"""
    return not any(re.search(r"[A-Za-z]", x) and not re.search(r"C[12]E|aSE|D[0-2]Ev$|(nw|na|dl|da)E[mP]", x) for x in rec.get("methods", []))


def implicit(R, m, L, seen):
    """classes constructed by the compiler-generated default constructor"""
    for cls, rec in sorted(m.rec.items()):
        if not rec.get("inrepo") or rec.get("lambda"):
            continue
        cs = [f for f in m.methods(cls) if f["kind"] == "ctor" and not f.get("implicit") and not f.get("defaulted")]
        if cs or (cls, rec.get("file"), rec.get("line")) in seen or rec.get("anyUserCtor") or plain(rec):
            continue
        user = any(f["kind"] == "ctor" and not f.get("implicit") for f in m.methods(cls))
        fs = [fd for fd in rec["fields"] if fd.get("n")]
        if not fs or rec.get("abstract"):
            continue
        seen.add((cls, rec.get("file"), rec.get("line")))
        try:
            s = L.E.default_fields(cls, THIS, St())
        except Undecided as e:
            R.und(cls + " default members", rec.get("file", ""), str(e))
            continue
        bad = [fd["n"] for fd in fs if uninit(L.rd(s, (fd["n"],)))]
        w = f"{rec.get('file', '').replace(REPO + '/', '')}:{rec.get('line')} ({cls})"
        if bad and rec.get("aggregate_ok"):
            continue
        R.result(not bad, cls + " default members" + ("/" + ",".join(bad) if bad else ""), w,
                 "members without an initial value: " + ", ".join(bad) if bad else "all members have initial values")


def one(R, L, f):
    key = fkey(f)
    try:
        outs = L.run(f)
    except Undecided as e:
        R.und(key, where(f), str(e))
        return
    ctor = f["kind"] == "ctor"
    bad = {}
    for o in outs:
        if o.kind == "ret":
            if ctor:
                for p in leaves(L.m, f["cls"]):
                    v = L.rd(o.st, p)
                    if uninit(v):
                        bad[".".join(p)] = v
            else:
                if isinstance(o.val, T) and uninit(o.val):
                    bad["return value"] = o.val
                for r, d in o.st.store.items():
                    if r[0] == "o":
                        for p, v in d.items():
                            if uninit(v):
                                bad[show(r[1]) + "".join("." + x if isinstance(x, str) else "[..]" for x in p)] = v
        for a, v in o.facts.d.items():
            if uninit(a):
                bad["branch condition"] = a
    if bad and ctor is False and L.reachable(f, lambda x: True) is False:
        bad = {}
    if bad:
        R.viol(key + "/" + ",".join(sorted(bad))[:100], where(f),
               "; ".join(f"{k} = {show(v)[:120]}" for k, v in list(bad.items())[:4]) + " was never written")
    else:
        R.ok(key, where(f), "constructed completely" if ctor else "uses written values only")
