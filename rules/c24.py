"""C24 every option is read from its own key and reaches its own consumer."""
import os
import xml.etree.ElementTree as ET

from sa.project import REPO
from .cal import *
from .c22 import table

GETS = ("getDouble", "getInt", "getBool", "getString")
NOISE = ("variance", "percenterror", "sigma", "covariance", "noise", "stddev")
SETS = ("core", "tsvd") + GROUPS


def check(R):
    R.rule("a member that a configuration initialises has a value on every path and no default taken from a member that has none")
    R.rule("a member named like a key is read from that key; no two members or components take the same key")
    R.rule("the components of a vector read from one section follow the order of their keys")
    R.rule("a variable is active exactly when the activation entry of its own section says so")
    R.rule("an option named after one trajectory spline reaches that spline")
    R.rule("a key without a default exists in the shipped configuration of the program that reads it")
    R.rule("the covariance of a residual uses the noise option named after the calibration variables and channel of that residual; no noise option whose siblings are used is unused")
    n = 0
    ms, found = {}, {}
    for g in SETS:
        try:
            ms[g] = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
    for g, m in ms.items():
        L = Lib(m, R)
        for c in sorted(m.rec):
            if not m.rec[c].get("inrepo"):
                continue
            for f in m.methods(c):
                if f["kind"] != "ctor" or f.get("body") is None or not any("PropertyTree" in p["t"] for p in f["params"]):
                    continue
                n += 1
                configured(R, L, g, c, f, found)
        for f in sorted(m.fn.values(), key=lambda f: (f["file"], f["line"])):
            if f["kind"] != "ctor" and f.get("body") is not None and f["file"].startswith(REPO) and f.get("ret") in m.rec \
                    and any("PropertyTree" in p["t"] for p in f["params"]):
                n += 1
                optionset(R, L, g, f, found)
    if not n:
        R.lost("constructors that take a configuration")
    shipped(R, found)
    for c in calibrators(R):
        noise(R, c)
        splineoptions(R, c)


# ------------------------------------------------------------------- key reads
def subterms(t, seen=None):
    """every subterm once"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            st.extend(x.a)


def key_of(t):
    """(tree term, constant part of the key, the whole key is constant) of a read"""
    if not isinstance(t, T):
        return None
    n, a = (t.a[0], t.a[1:]) if t.op in ("call", "ret") else (t.op, t.a)
    if n not in GETS or len(a) < 2:
        return None
    k = a[1]
    tree = a[0]
    if k.op == "str":
        key = k.a[0]
        while tree.op == "ctor" and "PropertyTree" in str(tree.a[0]) and (len(tree.a) == 2 or len(tree.a) == 3 and tree.a[2].op == "str"):
            if len(tree.a) == 3:
                key = tree.a[2].a[0].rstrip("/") + "/" + key    # read through a sub-tree
            tree = tree.a[1]
        return tree, key, True, a[2] if len(a) > 2 else None
    tails = [x.a[0] for x in (k.a if k.op == "cat" else subterms(k)) if isinstance(x, T) and x.op == "str"]
    if len(tails) > 1 and k.op == "cat" and k.a[-1].op == "str":
        tails = tails[-1:]
    return (a[0], tails[0], False, a[2] if len(a) > 2 else None) if len(tails) == 1 else None


def reads(t):
    return [(x, key_of(x)) for x in subterms(t) if key_of(x)]


def outer(t):
    """reads of a value, without those that only select the key of another"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            k = key_of(x)
            if k:
                out.append((x, k))
            else:
                st.extend(x.a)
    return out


def tok(s):
    """words of an identifier"""
    return [w.lower() for w in re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|\d+", s)]


def plain(s):
    return s.strip("_").lower().replace("_", "")


def leaves(L, st, cls, pre=()):
    """(member path, type, value) of every leaf member of an object under construction"""
    for n, f, o in L.m.all_fields(cls):
        t = f["t"]
        sub = L.m.rec.get(t)
        if sub and sub.get("inrepo") and sub["fields"] and not t.startswith("std::"):
            yield from leaves(L, st, t, pre + (n,))
        else:
            yield pre + (n,), t, L.rd(st, pre + (n,))


def configured(R, L, g, c, f, found):
    short = f"{g}/{c.split('::')[-1]}"
    w = where(f)
    try:
        outs = [o for o in L.run(f) if o.kind == "ret"]
    except Undecided as e:
        R.und(f"{short}/summary", w, str(e))
        return
    tree = next(i for i, p in enumerate(f["params"]) if "PropertyTree" in p["t"])
    for o in outs:
        used = any(sym(f"arg{tree}") in x for e in o.st.store.get(THIS[0], {}).values() if isinstance(e, T) for x in [set(subterms(e))]) \
            or any(isinstance(e, T) and sym(f"arg{tree}") in set(subterms(e)) for e in o.trace) or any(reads(a) for a in o.facts.d)
        R.result(used, f"{short}/used", w, "what is built depends on the configuration" if used else "nothing of what is built depends on the configuration")
        vals = []
        for path, t, v in leaves(L, o.st, c):
            key = f"{short}/{'.'.join(path)}"
            line = w
            if not isinstance(v, T):
                continue
            bad = [x for x in subterms(v) if x.op == "uninit" and x.a[:1] != ("Eigen",)]
            arith = re.match(r"(bool|double|float|(unsigned )?(long|int|short|char)|.*size_t)$", t)
            if bad and (arith or reads(v)):
                R.viol(key + "/value", line, "without this key in the configuration the value is that of the uninitialised member " + str(bad[0].a[0])
                       if reads(v) else "the member is left without a value by a constructor that reads a configuration")
            elif arith:
                R.ok(key + "/value", line, "has a value on every path")
            vals.append((path, t, v))
        keynames(R, short, w, vals)
        sections(R, short, w, f, o, vals)
        for t in [x for _, _, x in vals] + [a for a in o.facts.d]:
            for r, k in reads(t):
                p = prefix(k[0])
                if k[3] is None and p is not None:
                    found.setdefault(short, (g, w, set()))[2].add((p, k[1], k[2]))
    activation(R, L, short, f, outs)


def optionset(R, L, g, f, found):
    """a function that builds an option record from a configuration"""
    short = f"{g}/{f['n']}"
    w = where(f)
    try:
        outs = [o for o in L.run(f) if o.kind == "ret"]
    except Undecided as e:
        R.und(f"{short}/summary", w, str(e))
        return
    for o in outs:
        vals = []
        for n, fd, _ in L.m.all_fields(f["ret"]):
            v = fld(o.val, n) if isinstance(o.val, T) else None
            if not isinstance(v, T) or is_open(v) and not reads(v):
                R.und(f"{short}/{n}", w, "value not resolved")
                continue
            if not reads(v):
                R.viol(f"{short}/{n}/key", w, "the option is not read from the configuration")
                continue
            vals.append(((n,), fd["t"], v))
        keynames(R, short, w, vals)
        for _, _, x in vals:
            for r, k in reads(x):
                p = prefix(k[0])
                if k[3] is None and p is not None:
                    found.setdefault(short, (g, w, set()))[2].add((p, k[1], k[2]))


def scalar_source(v):
    """the single key a member is a copy of"""
    r = reads(v)
    return r[0] if len(r) == 1 else None


def keynames(R, short, w, vals):
    src = {p: scalar_source(v) for p, t, v in vals}
    src = {p: s for p, s in src.items() if s and s[1][2]}
    tail = {p: s[1][1].split("/")[-1] for p, s in src.items()}
    used = {}
    for p, s in src.items():
        used.setdefault((s[1][0], s[1][1]), []).append(p)
    for p in src:
        key = f"{short}/{'.'.join(p)}/key"
        me, k = plain(p[-1]), plain(tail[p])
        dup = [q for q in used[src[p][1][0], src[p][1][1]] if q != p]
        others = [q for q in src if q != p]
        full = src[p][1][1]
        if dup:
            R.viol(key, w, f"the key {full} is also read into {'.'.join(dup[0])}")
        elif me == k:
            R.ok(key, w, f"read from {full}")
        elif any(plain(q[-1]) == k for q in vals_names(vals) if q != p):
            R.viol(key, w, f"read from the key {full}, which is named after another member")
        elif any(plain(tail[q]) == me for q in others):
            R.viol(key, w, f"read from the key {full} while the key of its name is read into {'.'.join(next(q for q in others if plain(tail[q]) == me))}")
        else:
            s = suffix(p[-1])
            if s and not related(s, tail[p]) and any(related(s, tail[q]) and len(s) > len(common(s, tail[p])) and
                                                     family(p[-1]) == family(q[-1]) and not best(suffix(q[-1]), tail[q], s) for q in others):
                q = next(q for q in others if related(s, tail[q]) and family(p[-1]) == family(q[-1]))
                R.viol(key, w, f"read from the key {full}; {'.'.join(q)} takes the key {src[q][1][1]}")
            else:
                R.ok(key, w, f"read from {full}, a key no other member takes")


def vals_names(vals):
    return [p for p, t, v in vals]


def suffix(n):
    """distinguishing part of a member name: k_rl -> rl"""
    x = re.match(r"[A-Za-z0-9]+_([A-Za-z0-9]+)_?$", n)
    return x.group(1).lower() if x else None


def family(n):
    return n.strip("_").split("_")[0]


def related(s, tail):
    return any(x.startswith(s) for x in tok(tail)) or tail.lower().startswith(s)


def common(s, tail):
    n = 0
    for a, b in zip(s, tail.lower()):
        if a != b:
            break
        n += 1
    return s[:n]


def best(sq, tq, s):
    """the sibling's own suffix matches its key better"""
    return bool(sq) and related(sq, tq) and len(sq) > len(s)


# ------------------------------------------------------------------- sections
ORDER = (("x", "y", "z"), ("yaw", "pitch", "roll"), ("roll", "pitch", "yaw"), ("rx", "ry", "rz"))


def components(v):
    """vectors in a value with a configuration read in every non-zero component: [(keys)]"""
    for x in subterms(v):
        if x.op == "mat" and isinstance(x.a[-1], tuple):
            r, c, es = x.a[0], x.a[1], x.a[-1]
            es = list(es)
            if isnum(r) if isinstance(r, T) else True:
                rr = int(r.a[0]) if isinstance(r, T) else int(r)
                cc = int(c.a[0]) if isinstance(c, T) else int(c)
                if rr == cc and rr > 1:
                    es = [es[i * cc + i] for i in range(rr)]
            ks = [scalar_source(e) if isinstance(e, T) else None for e in es]
            if len(ks) > 1 and all(ks):
                yield [k[1] for k in ks]


def sections(R, short, w, f, o, vals):
    done = set()
    for p, t, v in vals:
        for ks in components(v):
            key = f"{short}/{'.'.join(p)}/order/{ks[0][1].rsplit('/', 1)[0] if '/' in ks[0][1] else ks[0][1]}"
            if key in done:
                continue
            done.add(key)
            d = {k[1].rsplit("/", 1)[0] if "/" in k[1] else "" for k in ks}
            tl = [k[1].split("/")[-1] for k in ks]
            if len(set((k[0], k[1]) for k in ks)) < len(ks):
                R.viol(key, w, f"the same key is read into two components: {tl}")
            elif len(d) > 1:
                R.viol(key, w, f"components come from different sections: {sorted(d)}")
            else:
                want = next((list(x) for x in ORDER if set(x) == set(tl)), None)
                if want is None:
                    nums = [re.match(r"^(.*?)(\d+)$", x) for x in tl]
                    if all(nums) and len({x.group(1) for x in nums}) == 1:
                        want = sorted(tl, key=lambda x: int(re.search(r"\d+$", x).group()))
                if want is None:
                    R.und(key, w, f"no order known for {tl}")
                else:
                    alts_ = [list(x) for x in ORDER if set(x) == set(tl)]
                    R.result(tl == want or tl in alts_ and False, key, w, f"components in the order {tl}" + ("" if tl == want else f" instead of {want}"))


# ------------------------------------------------------------------- activation
def section_of(k):
    return k.rsplit("/", 1)[0] if "/" in k else ""


def activation(R, L, short, f, outs):
    """final activity of every design variable the constructor creates, on representative configurations"""
    objs = {}
    for o in outs:
        for e in flat(o.trace):
            if e.name == "new" and isinstance(e.recv, T) and e.recv.op == "new" and dvdim(L.m, str(e.recv.a[0])):
                ks = [k for _, k in outer(e.recv.a[1])]
                if ks:
                    objs.setdefault(ident(e.recv), (e.recv, ks, e.line))
    flags = set()
    for o in outs:
        for fs, e in guarded(o.trace, tuple(o.facts.d.items())):
            for t in [a for a, _ in fs] + [a for a in e.args if isinstance(a, T)]:
                flags |= {k[:2] for r, k in outer(t) if "getBool" in (r.a[0], r.op)}
    for idn, (obj, ks, line) in objs.items():
        secs = {section_of(k[1]) for k in ks}
        key = f"{short}/active/{ks[0][1]}"
        if len(secs) > 1:
            continue
        sec = secs.pop()
        if not flags and sec.split("/")[0] != "intrinsics":
            continue
        own = {k for k in flags if section_of(k[1]) == sec and governs(k[1], ks)}
        seen, opens, bad = {}, [], None
        for i in range(48):
            I = Interp(7919 * i + 5, None, "gen")
            try:
                v = final(I, outs, idn)
                v = bool(v)    # a design variable is created inactive
                bits = tuple(sorted((k[1], flag(I, outs, k)) for k in flags))
                mine = tuple(x for x in bits if any(x[0] == k[1] for k in own))
                if mine in seen and seen[mine][0] != v:
                    a = dict(seen[mine][1])
                    d = [k for k, x in bits if a.get(k) != x]
                    bad = f"depends on {d[0] if d else '?'}, an entry of another section"
                    break
                seen[mine] = (v, bits)
                if not own and sec == "intrinsics" and not v:
                    bad = "not estimated: it has no activity entry and is left inactive"
                    break
                if len(mine) == 1 and mine[0][1] is not None and v != mine[0][1]:
                    bad = f"{'active' if v else 'inactive'} when {mine[0][0]} is {str(mine[0][1]).lower()}"
                    break
            except (Open, Bottom) as e:
                opens.append(str(e)[:80])
        if bad:
            R.viol(key, where(f, line), "variable read from " + ks[0][1] + " is " + bad)
        elif not seen:
            R.und(key, where(f, line), opens[0] if opens else "no model")
        else:
            R.ok(key, where(f, line), ("active as " + ", ".join(k[1] for k in own) + " says") if own and len({v for v, _ in seen.values()}) > 1 else "independent of the other sections")


def governs(flag_, ks):
    t = flag_.split("/")[-1].lower()
    t = t[:-6] if t.endswith("active") else t
    return not t or any(t.rstrip("s") in k[1].split("/")[-1].lower() for k in ks)


def ident(n):
    return (n.a[0], n.a[1])


def guarded(tr, fs):
    for e in tr:
        if isinstance(e, LoopEv):
            for k, g, t in e.alts:
                yield from guarded(t, fs + tuple(g))
        elif e.name == "setActive":
            yield fs, e


def flag(I, outs, k):
    for o in outs:
        for fs, e in guarded(o.trace, tuple(o.facts.d.items())):
            for t in [a for a, _ in fs] + [a for a in e.args if isinstance(a, T)]:
                for r, kk in outer(t):
                    if kk[:2] == k:
                        return bool(I(Canon()(r)))
    return None


def final(I, outs, idn):
    """activity of the object after the constructor, None: not set"""
    cn = Canon()
    res = []
    for o in outs:
        if holds(_F([(cn(a), v) for a, v in o.facts.d.items()]), I):
            res.append(run(I, cn, o.trace, idn))
    if len(res) != 1:
        raise Open(f"{len(res)} paths")
    return res[0]


def run(I, cn, tr, idn):
    v = None
    for e in tr:
        if isinstance(e, LoopEv):
            alts = [t for k, fs, t in e.alts if holds(_F([(cn(a), b) for a, b in fs]), I)]
            if len(alts) != 1:
                raise Open(f"{len(alts)} paths of a loop")
            x = run(I, cn, alts[0], idn)
            v = x if x is not None else v
        elif e.name == "setActive" and isinstance(e.recv, T) and contains(e.recv, lambda y: y.op == "new" and ident(y) == idn):
            v = bool(I(cn(e.args[0])))
    return v


class _F:
    def __init__(self, fs):
        self.d = dict(fs)


# ---------------------------------------------------------------- shipped files
PKG = {"core": "incremental_calibration", "tsvd": None, "car": "car", "time_delay": "time_delay", "egomotion_sensors": "egomotion_sensors"}


def tree(el, pre=""):
    out = set()
    for ch in el:
        if not isinstance(ch.tag, str):
            continue
        p = pre + ch.tag
        out.add(p)
        out |= tree(ch, p + "/")
    return out


def confs():
    out = {}
    for d, _, fs in os.walk(REPO):
        if d.endswith("/conf") and ".git/" not in d:
            for x in fs:
                if x.endswith(".xml"):
                    try:
                        r = ET.parse(os.path.join(d, x)).getroot()
                        out[os.path.relpath(os.path.join(d, x), REPO)] = {""} | {r.tag} | tree(r, r.tag + "/")
                    except ET.ParseError:
                        pass
    return out


def shipped(R, found):
    cs = confs()
    for short, (g, w, keys) in sorted(found.items()):
        best_ = None
        for name, nodes in cs.items():
            if g in GROUPS and f"_{g}/" not in name:
                continue
            for pre in nodes:
                miss = [k for k in keys if not there(nodes, pre, k)]
                sc = (len(keys) - len(miss), -len(pre))
                if best_ is None or sc > best_[0]:
                    best_ = (sc, name, pre, miss)
        if best_ is None or best_[0][0] * 2 < len(keys) or not best_[0][0]:
            R.und(f"{short}/shipped", w, "no shipped configuration has a section with these keys")
            continue
        _, name, pre, miss = best_
        for k in sorted(keys):
            kk = "/".join(x for x in k[0]) + ("/" if k[0] else "") + k[1]
            R.result(k not in miss, f"{short}/shipped/{kk}", w, f"{'found' if k not in miss else 'required, but not present'} in section {pre or '/'} of {name}")


def there(nodes, pre, k):
    parts, key, whole = k
    p = "/".join([x for x in (pre,) + parts if x])
    if whole:
        return (p + "/" + key if p else key) in nodes
    return any(n.startswith(p) and (n.endswith("/" + key) or n.endswith(key)) for n in nodes)


def prefix(t):
    """sections between a tree and the configuration the constructor was given"""
    if t.op == "ctor" and "PropertyTree" in str(t.a[0]):
        if len(t.a) == 3 and t.a[2].op == "str":
            p = prefix(t.a[1])
            return None if p is None else p + (t.a[2].a[0],)
        return prefix(t.a[1]) if len(t.a) == 2 else None
    if t.op == "deref" and t.a[0] is sym("arg0"):
        return ()
    return None


# ----------------------------------------------------------------------- noise
def noise(R, c):
    """options consumed by the residuals of a calibrator"""
    opts = {}
    for n, t in c.fields.items():
        r = c.L.m.rec.get(t)
        if r and r.get("inrepo") and any(x["n"].lower().endswith(NOISE) for x in r["fields"]):
            for x in r["fields"]:
                if x["n"].lower().endswith(NOISE):
                    opts[x["n"]] = fld(this(n), x["n"])
    if not opts:
        return
    used = {}
    for f, outs in c.having("addErrorTerm", 0):
        for b, ls in table(c, outs, "addErrorTerm").items():
            for l in ls:
                for k, fs, tr in l.alts:
                    for e in tr:
                        if isinstance(e, LoopEv) or e.name != "addErrorTerm":
                            continue
                        t = Canon()(e.args[0])
                        mine = {n for n, o in opts.items() if contains(t, lambda x: x is o)}
                        for n in mine:
                            used.setdefault(n, set()).add(b)
                        channel(R, c, f, b, e, t, mine, opts)
    fam = {}
    for n in opts:
        fam.setdefault(next(s for s in NOISE if n.lower().endswith(s)), []).append(n)
    for s, ns in fam.items():
        if not any(n in used for n in ns):
            continue
        for n in sorted(ns):
            R.result(n in used, f"{c.short}/noise/{n}/used", where(c.having("addErrorTerm", 0)[0][0]), "weights the residuals of " + ", ".join(sorted(used[n])) if n in used else
                     "no residual is weighted with this option")


def stem(n):
    low = n.lower()
    s = next(x for x in NOISE if low.endswith(x))
    return low[:len(low) - len(s)]


def channel(R, c, f, b, e, t, mine, opts):
    """the option must be named after the most specific calibration variable of the residual"""
    sufs = {suffix(x.a[1]) for x in subterms(t) if x.op == "fld" and isinstance(x.a[1], str)} - {None}
    for n in sorted(mine):
        st = stem(n)
        match = {s for s in sufs if any(stem(o).startswith(s) for o in opts)}
        if not match:
            continue
        top = max(len(s) for s in match)
        if not any(st.startswith(s) for s in match):
            # options without any sensor name (constraints) are shared by all residuals
            if any(len(x) == top for x in match) and not any(related(x, o) for x in all_suffixes(c) for o in [n] if stem(o).startswith(x)):
                continue
        spec = {s for s in match if len(s) == top}
        key = f"{c.short}/noise/{b}/{n}"
        if any(st.startswith(x) for x in all_suffixes(c)):
            R.result(any(st.startswith(s) for s in spec), key, where(f, e.line), f"residual of the variables *_{'/*_'.join(sorted(spec))} is weighted with {n}")


def all_suffixes(c):
    r = getattr(c, "_suf", None)
    if r is None:
        r = set()
        for n, t in c.fields.items():
            rec = c.L.m.rec.get(sp(t) or t)
            if rec and rec.get("inrepo"):
                r |= {suffix(x["n"]) for x in rec["fields"] if dvdim(c.L.m, sp(x["t"]) or "")}
        c._suf = r = r - {None}
    return r


# --------------------------------------------------------------------- splines
def splineoptions(R, c):
    """an option named after one trajectory spline reaches that spline only"""
    for f, outs in c.having("addErrorTerm", 0) + c.having("evaluateError", 0):
        for o in outs:
            for e in flat(o.trace):
                a = [x for x in e.args if isinstance(x, T)]
                if e.name == "new":
                    ty, rest = str(e.recv.a[0]), a
                elif a and a[0].op != "new" and Canon().root(a[0]) is not None:
                    ty, rest = str(Canon().root(a[0]).a[0]), a[1:]
                elif a and a[0].op == "new" and "Spline" in str(a[0].a[0]):
                    ty, rest = str(a[0].a[0]), a[1:]
                else:
                    continue
                if "Spline" not in ty or "Problem" in ty:
                    continue
                other = "rot" if "Euclidean" in ty else "trans" if re.search("Quaternion|SO3|Rotation", ty) else None
                for x in rest:
                    n = x.a[1] if x.op == "fld" else None
                    if other is None or not isinstance(n, str) or not ({"trans", "rot"} & set(tok(n))):
                        continue
                    bad = other in tok(n) or ("lambda" in tok(n)) == (e.name == "new")
                    R.result(not bad, f"{c.short}/{f['n']}/spline/{n}", where(f, e.line), f"{n} " + ("sets" if e.name == "new" else "is used to fit") +
                             (" the orientation spline" if other == "trans" else " the position spline"))
