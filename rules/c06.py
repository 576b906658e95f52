"""C06 removing a batch undoes adding it."""
from sa.project import load
from .core import *


def left(w, j):
    bs = w.batches[:j] + w.batches[j + 1:]
    alive = {d for b in bs for d, _ in b.dvs}
    return expect(w, bs, Mp([(k, v) for k, v in w.backup.items() if k.n in alive]))


def check(R):
    R.rule("the summary of every removal operation is compared, on problems built from up to three batches sharing design variables, with the problem built "
           "from the remaining batches: reference counts, groups, ordering, saved copies, batches")
    removals(R)


def removals(R):
    m = load("core")
    L = Lib(m, R, opaque=opaque, pure=pure)
    both = ("ret", "throw")

    def byindex(w, i):
        return left(w, i) if i < len(w.batches) else "throw"

    def byptr(w, p):
        n = [b.name for b in w.batches]
        return left(w, n.index(p.n)) if p.n in n else "throw"
    it = mk("iter", mk("addr", ("o", sym("this")), ("_optimizationProblems",)), sym("k"))
    one = lambda sub: lambda f: sub in f["params"][0]["t"]
    table(L, R, IOP, "remove", 1, lambda w: [], lambda w: byindex(w, w.k), world=World, pred=one("iterator"), need=both,
          args=lambda f: [it], given=lambda w, v: {sym("k"): pick_k(w)})
    table(L, R, IOP, "remove", 1, lambda w: [w.r(len(w.batches) + 2)], byindex, world=World, need=both,
          pred=lambda f: "iterator" not in f["params"][0]["t"] and "shared_ptr" not in f["params"][0]["t"])
    table(L, R, IOP, "remove", 1, lambda w: [Ptr("b%d" % w.r(4))], byptr, world=World, need=both,
          pred=lambda f: "iterator" not in f["params"][0]["t"] and "shared_ptr" in f["params"][0]["t"])


def pick_k(w):
    w.k = w.r(len(w.batches) + 1)
    return w.k
