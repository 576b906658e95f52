"""C26 the Python interface mirrors the C++ interface."""
from sa.lib import *
from sa.project import load

EST = "aslam::calibration::IncrementalEstimator"
RECORDS = [EST + "::ReturnValue", EST + "::Options", "truncated_svd_solver::TruncatedSvdSolverOptions"]


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren") or isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "&":
        e = e["e"]
    return e


class Names:
    """what the exporting functions bind, found through calls from the module initialisation"""

    def __init__(self, m):
        self.m = m
        self.binds = []         # (class, kind, name, target expression, function, line)
        self.reached = set()
        self.loose = []         # bindings whose name is computed

    def visit(self, f):
        if f["id"] in self.reached:
            return
        self.reached.add(f["id"])
        ini = {}
        for n in nodes(f["body"]):
            if n.get("s") == "decl":
                for v in n["v"]:
                    ini.setdefault(v["id"], []).append(v.get("init"))
            if n.get("k") == "asg" and n.get("op") == "=" and n["lhs"].get("k") == "var" and "id" in n["lhs"]:
                ini.setdefault(n["lhs"]["id"], []).append(n["rhs"])
        for n in nodes(f["body"]):
            if n.get("k") in ("call", "mcall"):
                g = self.m.fn.get(n.get("f"))
                if g is not None and g.get("body") is not None and g["file"].startswith(REPO) and g["kind"] == "fn":
                    self.visit(g)
                c = self.m.callee.get(n.get("f"), {})
                if c.get("n") in ("def", "def_readwrite", "def_readonly", "add_property", "staticmethod") and "boost::python" in c.get("q", ""):
                    a = n.get("a", [])
                    nm = strip(a[0]) if a else None
                    nm = self.target(nm, ini)
                    if len(a) < 2:
                        continue
                    if not nm or nm.get("k") != "str":
                        self.loose.append((f, n["l"]))
                        continue
                    rec = None
                    t = c.get("cls", "")
                    if "class_<" in t:
                        rec = t[t.index("class_<") + 7:]
                        d = 0
                        for i, ch in enumerate(rec):
                            d += ch == "<"
                            d -= ch == ">"
                            if ch in ",>" and d <= 0 and (ch == "," or d < 0):
                                rec = rec[:i]
                                break
                    self.binds.append((rec, c["n"], nm["v"], self.target(a[1], ini), f, n["l"]))
            if n.get("k") == "fref":
                g = self.m.fn.get(n.get("f"))
                if g is not None and g.get("body") is not None and g["file"].startswith(REPO) and g["kind"] == "fn" and not g["params"] and g.get("rtk") == "v":
                    self.visit(g)

    def target(self, e, ini, d=0):
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "var" and d < 4:
            xs = [x for x in ini.get(e.get("id"), []) if x]
            if len(xs) == 1:
                return self.target(xs[0], ini, d + 1)
        return e


def check(R):
    R.rule("every name bound by an exporting function that the module initialisation reaches is bound to the member function or field of the same name; a name "
           "with 'Scaled' is bound to a function whose summary is that of the accessor asked for the scaled quantity, one without to the unscaled one")
    R.rule("every field of the result of an update, of the options of the estimator and of the solver is bound")
    m = load("python", "core")
    L = Lib(m, R)
    init = [f for f in m.fn.values() if f["file"].startswith(REPO) and f["n"].startswith("init_module")]
    if not init:
        R.lost("module initialisation")
        return
    N = Names(m)
    for f in init:
        N.visit(f)
    for fid in N.reached:
        R.functions.add(m.fn[fid]["q"])
    if not N.binds:
        R.lost("names bound by the module")
    seen, names = {}, set()
    for rec, kind, name, t, f, line in N.binds:
        key = f"{rec}.{name}"
        names.add((rec, name))
        w = where(f, line)
        if not isinstance(t, dict):
            R.und(key, w, "target not resolved")
            continue
        if t.get("k") == "memptr":
            R.result(t["n"] == name, key, w, f"bound to the field {t['n']} of {t['cls']}")
            seen.setdefault(t["cls"], set()).add((t["n"], name))
            continue
        if t.get("k") in ("fref", "mfref") and kind == "def":
            c = m.callee.get(t.get("f")) or m.fn.get(t.get("f"))
            if not c:
                R.und(key, w, "target not resolved")
            elif c.get("kind") == "method":
                R.result(c["n"] == name, key + sig(c), w, f"bound to {c['q']}")
            else:
                wrapper(R, L, key, w, name, m.fn.get(t["f"]), rec)
            continue
        R.und(key, w, f"bound through {t.get('k')}")
    for cls in RECORDS:
        r = m.rec.get(cls)
        if not r:
            R.lost(cls)
            continue
        for fd in r["fields"]:
            got = (fd["n"], fd["n"]) in seen.get(cls, set())
            w = f"{r.get('file', '').replace(REPO + '/', '')}:{r.get('line')}"
            key = f"{cls}::{fd['n']} available"
            if not got and N.loose:
                R.und(key, w, f"the names bound at {where(*N.loose[0])} are computed")
            elif not got and any(n == fd["n"] and c and short(c) == short(cls) for c, n in names):
                R.und(key, w, "bound, but not as a field")
            else:
                R.result(got, key, w, "bound under its name" if got else "not available from Python under its name")
    # both forms of an overloaded operation, one name each
    for f in m.fn.values():
        if f["n"].startswith("export") and f["file"].startswith(REPO) and f["id"] not in N.reached and "Vision" not in f["n"]:
            R.viol(f["n"] + " called", where(f), "the names it binds are not available: the module initialisation does not call it")


def short(c):
    return c.split("::")[-1].split("<")[0].strip()


def sig(c):
    return "(" + ",".join(p["t"] for p in c.get("params", [])) + ")"


def wrapper(R, L, key, w, name, f, rec):
    if f is None or f.get("body") is None:
        R.und(key, w, "function without a body")
        return
    base = name.replace("Scaled", "")
    flag = "Scaled" in name
    ts = L.methods(rec, base, 1) or L.methods(rec, base, 0)
    if not ts:
        R.viol(key, w, f"no member function {base} of {rec}")
        return
    try:
        got = L.run(f)
        src = (("o", sym("arg0")), ()) if got and f["params"][0]["ref"] != "v" else None
        best = None
        for t in ts:
            if t["params"] and t["params"][0]["tk"] != "b":
                continue
            if len(t["params"]) == 0 and flag:
                continue
            this = src or (("o", sym("arg0")), ())
            outs = L.run(t, args=(num(int(flag)),) if t["params"] else (), this=this)
            best = outs
            break
    except Undecided as e:
        R.und(key, w, str(e))
        return
    if best is None:
        R.und(key, w, "no accessor with a flag")
        return
    a = [o for o in got if o.kind == "ret"]
    b = [o for o in best if o.kind == "ret"]
    if not a or len(b) != 1:
        R.und(key, w, f"{len(a)} and {len(b)} ways out")
        return
    bad = [o for o in a if NF().key(o.val) != NF().key(b[0].val)]
    if not bad:
        R.ok(key, w, f"returns {base}({'scaled' if flag else 'unscaled'})")
    elif all(is_open(o.val) for o in bad):
        R.und(key, w, show(bad[0].val)[:200])
    else:
        o = next(o for o in bad if not is_open(o.val))
        R.viol(key, w, f"returns {show(o.val)[:160]}, expected {show(b[0].val)[:160]}" + (f" when {show_facts(o)}" if len(a) > 1 else ""))


def show_facts(o):
    return ", ".join(f"{show(k)[:80]} is {v}" for k, v in list(o.facts.d.items())[:3])
