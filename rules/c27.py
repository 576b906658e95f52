"""C27 a permutation reorders and never loses elements."""
from itertools import product

from .dom import *
from sa.ev import Diverges, Seq
from sa.project import load


def check(R):
    R.rule("on every index vector of up to 4 entries over {negative, 0..n, huge}: a permutation leaves container'[i] = container[perm[i]]; "
           "anything else is refused with the container untouched; no loop of the summary runs without end or reads outside a vector")
    L = Lib(load("lib"), R)
    fs = [f for f in L.m.fn.values() if f["q"] == NS + "permute" and len(f["params"]) == 2]
    if not fs:
        R.lost("permute")
    for f in fs:
        one(R, L, f)


def vectors(signed):
    for n in range(4):
        ent = list(range(n + 1)) + ([-1, -(2 ** 31)] if signed else [2 ** 32, 2 ** 64 - 1])
        yield from ((n, p) for p in product(ent, repeat=n))
    yield from ((4, p) for p in product(range(5), repeat=4))
    yield from ((5, p) for p in product(range(5), repeat=5) if len(set(p)) >= 4)
    for n in range(4):
        yield from ((n, tuple(range(k))) for k in range(5) if k != n)


def one(R, L, f):
    a = L.cargs(f, "x")
    c, p = (mk("deref", x[0][1]) for x in a)
    key = f"{NS}permute({f['params'][0]['t']}, {f['params'][1]['t']})"
    w = where(f)
    try:
        outs = L.run(f, args=a)
    except Undecided as e:
        R.und(key, w, str(e))
        return
    signed = "unsigned" not in f["params"][1]["t"]
    n, opens = {"permuted": 0, "refused": 0}, {}
    for size, perm in vectors(signed):
        base = [10 + 3 * i for i in range(size)]
        I = Interp(1, {c: Seq(list(base)), p: Seq(list(perm))}, "mix")
        when = f"container of {size}, permutation {list(perm)}"
        valid = len(perm) == size and sorted(perm) == list(range(size))
        try:
            o = outcome(outs, I)
            if valid != (o.kind != "throw"):
                R.viol(key, where(f, o.line), ("refuses a permutation" if valid else "accepts what is not a permutation") + f": {when}")
                return
            got = I(L.E.read(o.st, a[0]))
            want = [base[i] for i in perm] if valid else base
            if not equal(got, Seq(want)):
                R.viol(key, w, f"leaves {fmt(got)}, expected {want}: {when}")
                return
            n["permuted" if valid else "refused"] += 1
        except Diverges as e:
            R.viol(key, w, f"does not terminate: {when}")
            return
        except Bottom as e:
            R.viol(key, w, f"reads outside a vector ({e}): {when}")
            return
        except Open as e:
            opens[str(e)] = opens.get(str(e), 0) + 1
    if opens or not all(n.values()):
        R.und(key, w, f"{n} decided, open: {opens}")
    else:
        R.ok(key, w, f"{n['permuted']} permutations reordered, {n['refused']} other index vectors refused with the container untouched")
