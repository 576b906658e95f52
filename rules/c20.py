"""C20 a residual registers and differentiates what it depends on."""
from .err import *

N = 60


def leafset(t, c):
    return c.uses(t)


def registered(c, f, o):
    """multiset of member names registered by this constructor outcome, None when not resolved"""
    val = {n: peel(c.L.rd(o.st, (n,))) for n in c.src}

    def name(t):
        t = peel(t)
        got = [n for n, v in val.items() if v is t or c.member(n) is t]
        return got[0] if got else None

    def walk(s, acc):
        """contents of a set of design variables"""
        s = peel(s)
        if s.op == "out" and s.a[0] == "getDesignVariables":
            acc.append(name(s.a[2]))
            return walk(s.a[3], acc)
        if s.op == "mut" and s.a[0] in ("insert", "emplace", "push_back"):
            acc.append(name(s.a[-1]))
            return walk(s.a[1], acc)
        if s.op == "app":
            acc.append(name(s.a[1]))
            return walk(s.a[0], acc)
        if s.op == "empty" or s.op == "ctor" and len(s.a) <= 2:
            return acc
        if s.op == "arr":
            acc += [name(x) for x in s.a[0]]
            return acc
        raise Open("set of design variables " + show(s)[:80])

    acc = []
    for e in flat(o.trace):
        if e.name == "setDesignVariables" and len(e.args) >= 1:
            if len(e.args) == 1 and peel(e.args[0]).op in ("mut", "out", "app", "arr", "empty"):
                walk(e.args[0], acc)
            else:
                acc += [name(a) for a in e.args]
        elif e.name == "setDesignVariablesIterator":
            z = e.args[1]
            if z.op == "iter" and z.a[1].op == "call" and z.a[1].a[0] == "size" and e.args[0].op == "iter" and e.args[0].a[1] is num(0):
                walk(z.a[1].a[1], acc)
            else:
                raise Open("range " + show(z)[:80])
    return acc


def one(R, c):
    L = c.L
    fe, fj = c.named("evaluateErrorImplementation", 0), c.named("evaluateJacobiansImplementation", 1)
    key = f"{c.group}/{c.short}"
    if fe is None or fj is None:
        R.lost(f"{key} evaluation functions")
        return
    try:
        eo, jo = c.outs(fe), c.outs(fj)
    except Undecided as x:
        R.und(key + "/evaluation", where(fe), str(x))
        return
    # -- the published residual
    bad = None
    for o in eo:
        evs = c.residual(o)
        w = where(fe, o.line)
        if any(e.name == "<loop>" for e in flat(o.trace)):
            R.und(key + "/publish", w, "loop")
            bad = 1
        elif len(evs) != 1:
            bad = 1
            R.viol(key + "/publish", w, f"setError is called {len(evs)} times on the path {facts(o)}")
        else:
            names = [e.name for e in flat(o.trace)]
            v = o.val
            if v is None or v.op != "call" or v.a[0] not in ("evaluateChiSquaredError",):
                R.und(key + "/cost", w, f"returned value {show(v)[:120]}")
                bad = 1
                continue
            pub = [x for x in subterms(v) if x.op == "mut" and x.a[0] == "setError"]
            if not pub:
                R.viol(key + "/cost", w, "the weighted cost is computed before the residual of this evaluation is published")
                bad = 1
            del names
    if not bad:
        R.ok(key + "/publish", where(fe), f"one residual on each of {len(eo)} paths, cost taken afterwards")
    if not eo:
        R.viol(key + "/publish", where(fe), "no path returns")
        return
    # -- every component is computed
    dep, ndef, opens = {}, 0, {}
    alldep = set()
    pairs = {}
    for i in range(N):
        I = c.model(104729 * i + 5, ("gen", "mix", "pos")[i % 3])
        try:
            o = outcome(eo, I)
        except (Bottom, Open):
            continue
        ev = c.residual(o)
        if len(ev) != 1:
            continue
        try:
            E = I(peel(ev[0].args[0]))
            if not isinstance(E, M):
                E = M(1, 1, [E])
            if len(E.e) != c.N:
                R.viol(key + "/components", where(fe, ev[0].line), f"residual of {len(E.e)} components, the term has {c.N}")
                return
            if any(not isn(x) for x in E.e):
                raise Open("component not resolved: " + ", ".join(fmt(x)[:60] for x in E.e if not isn(x)))
            ndef += 1
            for x in E.e:
                for (m, k) in gr(x):
                    dep.setdefault(id(o), set()).add(rootname(m))
                    alldep.add(rootname(m))
        except Bottom as x:
            if "uninitialised" in str(x):
                R.viol(key + "/components", where(fe, ev[0].line), f"a component of the residual is never computed ({x}) on the path {facts(o)}")
                return
            if isinstance(x, Outside) and not isinstance(x, Unsure):
                R.viol(key + "/components", where(fe, ev[0].line), f"the residual is computed with an {x} on the path {facts(o)}")
                return
            opens[str(x)] = opens.get(str(x), 0) + 1
            continue
        except Open as x:
            opens[str(x)] = opens.get(str(x), 0) + 1
            continue
        try:
            j = outcome(jo, I)
            pairs.setdefault((id(o), id(j)), (o, j, i))
        except (Bottom, Open) as x:
            opens["jacobians: " + str(x)] = opens.get("jacobians: " + str(x), 0) + 1
    if not ndef:
        R.und(key + "/components", where(fe), f"{opens}")
        return
    R.ok(key + "/components", where(fe), f"{c.N} components computed on {ndef} models; depends on {sorted(alldep)}")
    # -- registration
    for f in c.ctors():
        try:
            outs = c.outs(f)
            for o in outs:
                reg = registered(c, f, o)
                if None in reg:
                    R.und(key + "/registers", where(f), "registers something that is not a member")
                    break
                mis, extra = sorted(alldep - set(reg)), sorted(set(reg) - alldep)
                ptrs = [n for n in reg if reg.count(n) > 1 and c.src[n].ptr and any(e.name == "setDesignVariables" for e in flat(o.trace))]
                if mis:
                    R.viol(key + "/registers", where(f), f"the residual depends on {', '.join(mis)}, which is not registered")
                    break
                if extra:
                    R.viol(key + "/registers", where(f), f"registers {', '.join(extra)}, on which the residual does not depend")
                    break
                if ptrs:
                    R.viol(key + "/registers", where(f), f"registers {ptrs[0]} more than once")
                    break
            else:
                R.result(bool(outs), key + "/registers", where(f), f"registers {sorted(alldep)}")
        except (Open, Undecided) as x:
            R.und(key + "/registers", where(f), str(x))
    # -- contributions
    for o, j, i in pairs.values():
        need = dep.get(id(o), set())
        con = c.contributions(j)
        k = key + "/contributes"
        w = where(fj, j.line)
        if any(e.name == "<loop>" for e in flat(j.trace)) or any(n is None for n, _, _ in con):
            R.und(k, w, "contribution to something that is not a member")
            continue
        got = [n for n, _, _ in con]
        mis = sorted(need - set(got))
        two = sorted({n for n in got if got.count(n) > 1})
        extra = sorted(set(got) - alldep)
        p = facts(j)
        if mis:
            R.viol(k, w, f"no Jacobian is contributed for {', '.join(mis)} on the path {p}")
        elif two:
            R.viol(k, w, f"{', '.join(two)} receives more than one Jacobian on the path {p}")
        elif extra:
            R.viol(k, w, f"contributes a Jacobian for {', '.join(extra)}, which is not registered for the residual, on the path {p}")
        else:
            R.ok(k, w, f"{sorted(got)} once each on the path {p}")
        # dimensions
        for n, J, e in con:
            s = c.src[n]
            kd = f"{key}/dimension/{n}"
            if J is None:
                R.result(c.N == s.dim, kd, where(fj, e.line), f"identity Jacobian of a {c.N}-dimensional residual on {s.dim} dimensions")
                continue
            done = None
            for q in range(N):
                I = c.model(104729 * q + 5, "gen")
                try:
                    if not holds(j.facts, I):
                        continue
                    v = I(J)
                    if isn(v):
                        v = M(1, 1, [v])
                    if not isinstance(v, M) or s.dim is None:
                        done = ("und", "dimensions not resolved")
                        break
                    if (v.r, v.c) != (c.N, s.dim):
                        done = ("viol", f"Jacobian of {v.r}x{v.c} for a residual of {c.N} and {s.dim} dimensions of {n}")
                    else:
                        done = ("ok", f"{v.r}x{v.c}")
                    break
                except Bottom as x:
                    if "uninitialised" in str(x):
                        done = ("viol", f"the Jacobian of {n} has entries that are never computed")
                        break
                    if isinstance(x, Outside) and not isinstance(x, Unsure):
                        done = ("viol", f"the Jacobian of {n} is computed with an {x}")
                        break
                except Open as x:
                    done = ("und", str(x))
            getattr(R, (done or ("und", ""))[0])(kd, where(fj, e.line), (done or ("", "no model"))[1])


def rootname(m):
    return m.replace("rotation matrix of ", "") if isinstance(m, str) else m


def facts(o):
    return "[" + ", ".join(("" if v else "not ") + show(a)[:60] for a, v in o.facts.d.items()) + "]"


def check(R):
    R.rule("publish: every path of evaluateErrorImplementation publishes exactly one residual and takes the weighted cost afterwards")
    R.rule("components: every component of the published residual has a value computed in this evaluation")
    R.rule("registers: the constructor registers exactly the members the residual depends on (non-vanishing derivative on a representative model)")
    R.rule("contributes: every path of evaluateJacobiansImplementation contributes exactly one Jacobian to each of them")
    R.rule("dimension: that Jacobian has the rows of the residual and the columns of the variable")
    for c in classes(R):
        one(R, c)
