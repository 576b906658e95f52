"""C09 saving and restoring covers every design variable."""
from sa.project import load
from .core import *
from .c05p import PWorld, opaque1


def check(R):
    R.rule("after saving, the saved copies hold for every design variable of the problem the parameters it has then; restoring performs, for every saved "
           "copy, exactly one setParameters on the variable it belongs to with the recorded value and nothing else; removing and clearing drop the copies")
    m = load("core")
    for cls, W, op, dvs in ((IOP, World, opaque, lambda w: [k.n for k, _ in w.counts.items()]), (OP, PWorld, opaque1, lambda w: [d for d, _ in w.dvs])):
        L = Lib(m, R, opaque=op, pure=pure)

        def saved(w):
            now = [(Ptr(d), Tok("params", d)) for d in dvs(w)]
            return {"_designVariablesBackup": Mp(now)}
        table(L, R, cls, "saveDesignVariables", 0, lambda w: [], saved, world=W)

        def restored(w):
            def f(S, o):
                ev = replay(o.trace, S.I, ("setParameters", "getParameters", "update", "revertUpdate", "setActive"))
                got = [(r.n if isinstance(r, Obj) else fmt(r), n, a[0]) for n, r, a in ev]
                want = [(k.n, "setParameters", v) for k, v in w.backup.items()]
                g = sorted(got, key=lambda x: str((x[0], x[1], ck(x[2]))))
                e = sorted(want, key=lambda x: str((x[0], x[1], ck(x[2]))))
                return [("write-back", Tok("w", *[(a, b, ck(c)) for a, b, c in g]), Tok("w", *[(a, b, ck(c)) for a, b, c in e])),
                        ("saved copies", S.I(L.rd(o.st, ("_designVariablesBackup",))), w.backup)]
            return f
        table(L, R, cls, "restoreDesignVariables", 0, lambda w: [], restored, world=W)
        table(L, R, cls, "clear", 0, lambda w: [], lambda w: {"_designVariablesBackup": Empty()}, world=W)
    from .c06 import left
    L = Lib(m, R, opaque=opaque, pure=pure)

    def dropped(w, i):
        return {"_designVariablesBackup": left(w, i)["_designVariablesBackup"]} if i < len(w.batches) else "throw"
    table(L, R, IOP, "remove", 1, lambda w: [w.r(len(w.batches) + 2)], dropped, world=World,
          pred=lambda f: "iterator" not in f["params"][0]["t"] and "shared_ptr" not in f["params"][0]["t"])
