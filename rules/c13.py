"""C13 copies are complete."""
from sa.lib import *
from sa.project import load
from . import GROUPS


def check(R):
    R.rule("after copy construction / assignment every member (inherited ones and external bases included) holds the source's member "
           "value; after self-assignment every member holds its own previous value")
    seen = set()
    for g in GROUPS:
        m = load(g)
        L = Lib(m, R)
        for cls, rec in sorted(m.rec.items()):
            at = (cls, rec.get("file"), rec.get("line"))
            if not rec.get("inrepo") or at in seen:
                continue
            cm = [f for f in m.methods(cls) if f["kind"] in ("cctor", "cassign", "mctor", "massign") and not f.get("implicit")
                  and not f.get("defaulted") and not f.get("deleted") and f.get("body") is not None]
            if not cm:
                # compiler generated copies are member-wise by definition of the language
                if any(f["kind"] in ("cctor", "cassign") for f in m.methods(cls)):
                    seen.add(at)
                    R.ok(f"{cls}: implicit copy", rec.get("file", ""), "member-wise by the language")
                continue
            seen.add(at)
            for f in cm:
                one(R, L, cls, f)


def one(R, L, cls, f):
    m = L.m
    fields = leaves(m, cls)
    ext = [b["n"] for b in all_ext_bases(m, cls)]
    key = f"{cls}:{ {'cctor': 'copy constructor', 'mctor': 'move constructor', 'cassign': 'assignment', 'massign': 'move assignment'}[f['kind']]}"
    if f["kind"] == "mctor" or f["kind"] == "massign":
        R.und(key, where(f), "moves are not covered by the statement")
        return
    try:
        outs = L.run(f, args=(OTHER,))
    except Undecided as e:
        R.und(key, where(f), str(e))
        return
    # ensure the two objects are distinct: the address test is decided the other way
    n = 0
    for o in outs:
        if o.kind != "ret" or infeasible(o):
            continue
        n += 1
        for p in fields:
            fn = ".".join(p)
            cell(R, f"{key}/{fn}", f, L.rd(o.st, p), L.rd(St(), p, OTHER), fn, lambda got, p=p: same(L, cls, p, got))
        for b in ext:
            if pure_interface(m, b):
                continue
            got = L.rd(o.st, ("<base:" + b + ">",))
            want = L.rd(St(), ("<base:" + b + ">",), OTHER)
            cell(R, f"{key}/base {b}", f, got, want, "base " + b)
    if not n:
        R.und(key, where(f), "no normal outcome")
    if f["kind"] == "cassign":
        try:
            outs = L.run(f, args=(THIS,))
        except Undecided as e:
            R.und(key + " self", where(f), str(e))
            return
        for o in outs:
            if o.kind != "ret":
                continue
            for p in fields:
                fn = ".".join(p)
                cell(R, f"{key} to itself/{fn}", f, L.rd(o.st, p), L.rd(St(), p), fn)


def leaves(m, cls, pre=()):
    """member paths, records of the repository expanded"""
    out = []
    for n, fd, own in m.all_fields(cls):
        if m.rec.get(own, {}).get("inrepo") is False:
            continue        # state of an external base, compared as a whole
        t = fd["t"].replace("const ", "")
        if m.rec.get(t, {}).get("inrepo") and m.all_fields(t) and len(pre) < 4:
            out += leaves(m, t, pre + (n,))
        else:
            out.append(pre + (n,))
    return out


def infeasible(o):
    """outcomes of a self test that took the equal branch although the objects are distinct"""
    for a, v in o.facts.d.items():
        if a.op == "eq" and v:
            s = {show(x) for x in a.a}
            if "this" in " ".join(s) and "other" in " ".join(s) and all(x.op in ("addr", "sym") for x in a.a):
                return True
    return False


def all_ext_bases(m, cls):
    out = []
    for b in m.rec.get(cls, {}).get("bases", []):
        r = m.rec.get(b["n"], {})
        if r.get("inrepo"):
            out += all_ext_bases(m, b["n"])
        else:
            out.append(b)
    return out


def pure_interface(m, b):
    r = m.rec.get(b, {})
    return not r.get("fields") and not any(True for x in r.get("bases", []) if m.rec.get(x["n"], {}).get("fields"))


def same(L, cls, p, got):
    """the source's member always equals the value assigned (recomputed from the members it is derived from)"""
    c = cls
    for x in p[:-1]:
        t = [fd["t"] for n, fd, _ in L.m.all_fields(c) if n == x]
        if not t:
            return False
        c = t[0].replace("const ", "")
    return invariant(L, c, p[-1], got, (OTHER[0], OTHER[1] + p[:-1]))


def cell(R, key, f, got, want, fn, derived=None):
    if got is want:
        R.ok(key, where(f), f"{fn} = source.{fn}")
        return
    k1, k2 = NF().key(got), NF().key(want)
    if k1 == k2:
        R.ok(key, where(f), f"{fn} = source.{fn}")
        return
    if is_open(got):
        R.und(key, where(f), show(got)[:200])
        return
    bad = 0
    for i in range(12):
        I = Interp(i, mode="gen")
        try:
            if not equal(I(got), I(want)):
                bad += 1
        except (Open, Bottom):
            pass
    if bad and derived and derived(got):
        R.ok(key, where(f), f"{fn} is recomputed from the members it always follows")
    elif bad:
        R.viol(key, where(f), f"{fn} ends up as {show(got)[:160]} instead of the source's {fn}")
    else:
        R.und(key, where(f), f"{show(got)[:160]}")
