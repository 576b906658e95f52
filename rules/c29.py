"""C29 Jacobians are the derivatives of the residuals."""
from .err import *
from .c20 import facts

N = 150


def check(R):
    R.rule("the Jacobian contributed for a design variable equals, on every representative model, the first-order part of the "
           "published residual in a minimal perturbation of that variable (dual numbers through the same summaries)")
    R.rule("expressions by contract: chain rule on their value; transformation: translation moves by t + [translation]x theta, "
           "parameters of the rotation by S^-1 theta; angleMod has slope one")
    for c in classes(R):
        fe, fj = c.named("evaluateErrorImplementation", 0), c.named("evaluateJacobiansImplementation", 1)
        key = f"{c.group}/{c.short}"
        if fe is None or fj is None:
            R.lost(f"{key} evaluation functions")
            continue
        try:
            eo, jo = c.outs(fe), c.outs(fj)
        except Undecided as x:
            R.und(key, where(fe), str(x))
            continue
        okc, opens, bad = {}, {}, None
        for i in range(N):
            I = c.model(104729 * i + 5, ("gen", "mix", "gen")[i % 3])
            try:
                o, j = outcome(eo, I), outcome(jo, I)
                evs = c.residual(o)
                con = c.contributions(j)
                if not evs or any(n is None for n, _, _ in con):
                    raise Open("publication or contribution not resolved")
                E = I(peel(evs[-1].args[0]))
                E = E if isinstance(E, M) else M(1, 1, [E])
                if any(not isn(x) for x in E.e):
                    raise Open("component not resolved")
                if any("rotation matrix" in str(m) for x in E.e for (m, _), d in gr(x).items() if d):
                    raise Open("residual uses entries of the rotation matrix directly")
                tot = {}
                for n, J, e in con:
                    s = c.src[n]
                    if s.dim is None:
                        raise Open("dimension of " + n)
                    if J is None:
                        v = M(c.N, s.dim, [int(a == b) for a in range(c.N) for b in range(s.dim)])
                    else:
                        v = I(J)
                        v = M(1, 1, [v]) if isn(v) else v
                    if not isinstance(v, M) or (v.r, v.c) != (len(E.e), s.dim):
                        raise Open("dimensions")      # C20 reports these
                    if any(not isn(x) for x in v.e):
                        raise Open("Jacobian not resolved " + ", ".join(fmt(x)[:50] for x in v.e if not isn(x)))
                    t = tot.setdefault(n, [0.0] * len(v.e))
                    for q, x in enumerate(v.e):
                        t[q] += float(x)
                    tot[n + "@"] = e
                for n, t in tot.items():
                    if n.endswith("@"):
                        continue
                    d = c.src[n].dim
                    for a in range(len(E.e)):
                        for b in range(d):
                            want = gr(E.e[a]).get((n, b), 0.0)
                            if math.isnan(want) or math.isinf(want):
                                raise Bottom("derivative")
                            if abs(t[a * d + b] - want) > 1e-6 * max(1, abs(want)):
                                bad = (n, a, b, t[a * d + b], want, tot[n + "@"], j, I)
                                break
                        if bad:
                            break
                    if bad:
                        break
                    okc[(n, facts(j))] = okc.get((n, facts(j)), 0) + 1
            except Bottom as x:
                if isinstance(x, Outside) and not isinstance(x, Unsure):
                    R.viol(key + "/access", where(fj, jo[0].line if jo else None), f"a Jacobian is computed with an {x}")
                    break
                opens["bottom " + str(x)] = opens.get("bottom " + str(x), 0) + 1
            except Open as x:
                opens[str(x)] = opens.get(str(x), 0) + 1
            except OverflowError:
                pass
            if bad:
                break
        if bad:
            n, a, b, got, want, e, j, I = bad
            R.viol(f"{key}/{n}", where(fj, e.line),
                   f"entry ({a},{b}) of the Jacobian for {n} is {got:.6g}, the derivative of the residual is {want:.6g} on the path {facts(j)} when {desc(I)}")
            continue
        for n in c.src:
            k = [(p, q) for (m, p), q in okc.items() if m == n]
            if k:
                for p, q in k:
                    R.ok(f"{key}/{n}", where(fj), f"agrees on {q} models of the path {p}")
            else:
                R.und(f"{key}/{n}", where(fj), f"{opens}")
