"""C18 a seed determines the random sequence."""
from math import trunc

from .c08 import fkey
from .dom import *
from sa.engine import Ev, LoopEv
from sa.project import load

# generator family -> (seeding functions, drawing functions)
FAMILY = {
    "random": ({"srandom", "initstate", "setstate"}, {"random"}),
    "rand": ({"srand"}, {"rand"}),
    "rand48": ({"srand48", "seed48", "lcong48"}, {"drand48", "lrand48", "mrand48"}),
}
SEEDERS = {s: k for k, (a, _) in FAMILY.items() for s in a}
DRAWERS = {s: k for k, (_, a) in FAMILY.items() for s in a}
OTHER = {"rand_r", "random_r", "drand48_r", "erand48", "nrand48", "jrand48", "arc4random", "arc4random_uniform", "getrandom", "getentropy", "time",
         "clock", "clock_gettime", "gettimeofday", "getpid", "rdtsc", "lrand48_r", "rand_s"}
CLOCKS = ("std::chrono::",)


def check(R):
    R.rule("on every returning path of setSeed and of the construction with a seed the generator is seeded with exactly the given seed and "
           "neither reseeded nor advanced afterwards")
    R.rule("every sampling function reaches, through all calls, draws of the generator that setSeed seeds and of no other; it reaches no seeding, "
           "no clock and no variable of static storage, and writes no state of its own")
    L = Lib(load("lib"), R)
    cs = L.classes(NS + r"Randomizer<.*>")
    if not cs:
        R.lost("class Randomizer")
    for cls in cs:
        fam = set()
        entries = [f for f in L.methods(cls, "setSeed", 1)]
        if not entries:
            R.lost(cls + "::setSeed")
        entries += [f for f in L.m.methods(cls) if f["kind"] == "ctor" and f.get("body") is not None and len(f["params"]) == 1
                    and "Randomizer" not in f["params"][0]["t"]]
        for f in entries:
            fam |= seeds(R, L, cls, f)
        samplers = [f for f in L.m.methods(cls) if f["n"].startswith("sample") and f.get("body") is not None]
        if not samplers:
            R.lost(cls + "::sample*")
        for f in samplers:
            draws(R, L, cls, f, fam)


def flat(tr):
    """events of a trace; events inside loops come with a mark"""
    for e in tr:
        if isinstance(e, LoopEv):
            for _, _, t in e.alts:
                for x, _ in flat(t):
                    yield x, True
        elif isinstance(e, Ev):
            yield e, False


def seeds(R, L, cls, f):
    """checks the seeding operation f, returns the families it seeds"""
    key, w = fkey(f), where(f)
    a = L.cargs(f, "seed")
    l = a[0] if isinstance(a[0], T) else mk("deref", a[0][0][1])
    fam = set()
    try:
        outs = L.run(f, args=a)
    except Undecided as e:
        R.und(key, w, str(e))
        return fam
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        evs = list(flat(o.trace))
        sd = [(i, e, lp) for i, (e, lp) in enumerate(evs) if e.name.split("::")[-1] in SEEDERS]
        if not sd:
            R.viol(key, w, "a path stores the seed without seeding the generator: " + str([(show(x), v) for x, v in o.facts.d.items()])[:200])
            return fam
        i, e, lp = sd[-1]
        fam.add(SEEDERS[e.name.split("::")[-1]])
        late = [x.name for x, _ in evs[i + 1:] if x.name.split("::")[-1] in DRAWERS]
        if late:
            R.viol(key, where(f, evs[i + 1][0].line), f"draws {late} after seeding, so the sequence does not start where the seed puts it")
            return fam
        if lp:
            R.und(key, w, "seeding inside a loop")
            return fam
        bad = opens = 0
        for k in range(60):
            I = Interp(31 * k + 5, None, ("mix", "gen")[k % 2])
            try:
                if holds(o.facts, I) is False:
                    continue
                s = I(l)
                g = I(e.args[0])
                if (trunc(g) - trunc(s)) % 2 ** 32:  # the generator takes an unsigned int
                    R.viol(key, where(f, e.line), f"seeds the generator with {fmt(g)} when given {fmt(s)}")
                    return fam
                n += 1
            except (Open, Bottom) as x:
                opens += 1
    if n:
        R.ok(key, w, f"seed reaches the generator unchanged on {n} models")
    else:
        R.und(key, w, "no model evaluates the seed")
    return fam


def draws(R, L, cls, f, fam):
    key, w = fkey(f), where(f)
    seen, stack, got, bad = set(), [(f["id"], [f["n"]])], set(), []
    while stack:
        i, path = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        g = L.m.fn.get(i)
        c = L.m.callee.get(i, {})
        q = (g or c).get("q", "")
        n = q.split("::")[-1]
        simple = n if q in (n, "std::" + n) else ""
        if simple in DRAWERS:
            got.add(DRAWERS[simple])
            if DRAWERS[simple] not in fam:
                bad.append(f"draws from {n}, which setSeed does not seed, via {' > '.join(path)}")
            continue
        if simple in SEEDERS:
            bad.append(f"seeds the generator itself ({n}) via {' > '.join(path)}")
            continue
        if simple in OTHER or q.startswith(CLOCKS):
            bad.append(f"depends on {q} via {' > '.join(path)}")
            continue
        if "random_device" in q or "_engine" in q or "boost::random" in q or "twister" in q or "distribution<" in q and q.startswith("std::"):
            bad.append(f"draws from {q} via {' > '.join(path)}")
            continue
        if g is None or not inrepo(g):
            continue
        R.functions.add(g["q"])
        for v in statics(g):
            bad.append(f"keeps state in the static variable '{v}' of {g['q']}, reached via {' > '.join(path)}")
        for h in calls(g):
            hn = (L.m.fn.get(h) or L.m.callee.get(h) or {}).get("n", h)
            stack.append((h, path + [hn]))
    try:
        for o in L.run(f):
            if o.kind != "ret":
                continue
            for r, d in o.st.store.items():
                if r[0] == "g" and d:
                    bad.append(f"writes the static variable {r[1]}")
                if r == THIS[0] and d:
                    bad.append(f"writes its own state {['.'.join(map(str, p)) for p in d]}")
    except Undecided as e:
        R.und(key + "/state", w, str(e))
    if bad:
        R.viol(key, w, sorted(set(bad))[0])
    elif not got:
        R.viol(key, w, "draws nothing from the generator")
    else:
        R.ok(key, w, f"draws only from {sorted(got)}")


def inrepo(g):
    from sa.project import REPO
    return (g.get("file") or "").startswith(REPO)


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def calls(g):
    out = []
    for d in list(walk(g.get("body"))) + list(walk(g.get("inits", []))):
        if d.get("k") in ("call", "ctor", "mcall", "opcall") or "f" in d:
            if isinstance(d.get("f"), str):
                out.append(d["f"])
    return out


def statics(g):
    """mutable variables of static storage used in g"""
    out = []
    for d in walk(g.get("body")):
        if d.get("k") == "var" and d.get("g") and not d["t"].startswith("const "):
            out.append(d["n"])
    return out
