"""C19 linear-algebra resources are released on every way out.

Ownership typestate over the statement tree, exceptional edges included: every call that is not known to be free of exceptions
may leave the function."""
import re

from sa.lib import *
from sa.project import load
from .c08 import fkey

OWNERS = re.compile(r"SelfFreeing\w*Ptr|unique_ptr|shared_ptr|scoped_ptr")
PLAIN = re.compile(r"(unique|scoped)_ptr<(struct )?cholmod_\w+(, std::default_delete<(struct )?cholmod_\w+ ?>)?>")
FREE = re.compile(r"free")
STEPS = {"solveSystem": "solve", "analyzeMarginal": "analyzeMarginal"}
MAX = 400


class S:
    """one abstract state: what each variable holds, what became of each resource"""
    __slots__ = ("env", "res", "caught", "done")

    def __init__(self, env=None, res=None, caught=False, done=frozenset()):
        self.env, self.res, self.caught, self.done = dict(env or {}), dict(res or {}), caught, done

    def copy(self):
        return S(self.env, self.res, self.caught, self.done)

    def key(self):
        return (tuple(sorted(self.env.items(), key=str)), tuple(sorted(self.res.items(), key=str)), self.caught, self.done)


def dedupe(xs):
    seen, out = set(), []
    for s, v in xs:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    if len(out) > MAX:
        raise Undecided("too many states")
    return out


class Walk:
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.exc = [[]]
        self.bad = []           # (kind, line, message)
        self.acq = {}           # rid -> (name, line)
        self.temps = [[]]
        self.depth = 0
        self.calls = 0

    def err(self, kind, line, msg):
        if (kind, line, msg) not in self.bad:
            self.bad.append((kind, line, msg))

    # ---------------------------------------------------------------- expressions: [(state, value)]
    # values: ("r", rid) | ("o", rid) owner object | ("null",) | ("c", 0/1) | None
    def ev(self, e, s):
        if not isinstance(e, dict):
            return [(s, None)]
        k = e["k"]
        if k in ("cast", "paren"):
            if e.get("ck") in ("PointerToBoolean",):
                return [(x, ("c", int(b))) for x, b in self.cond(e, s)]
            return self.ev(e["e"], s)
        if k == "var":
            return [(s, s.env.get(e["id"]))]
        if k in ("null", "zero"):
            return [(s, ("null",))]
        if k == "int":
            if e.get("tk") == "b":
                return [(s, ("c", int(e["v"] not in ("0", "false", 0))))]
            return [(s, ("null",) if e.get("tk") == "p" else None)]
        if k == "un":
            if e["op"] == "!":
                return [(x, ("c", int(not b))) if b is not None else (x, None) for x, b in self.cond(e["e"], s)]
            if e["op"] == "&" and e["e"].get("k") == "var":
                return [(s, ("&", e["e"]["id"]))]
            return [(x, v if e["op"] in ("*", "&") else None) for x, v in self.ev(e["e"], s)]
        if k == "asg" and e["op"] == "=":
            return self.assign(e, s)
        if k == "bin":
            if e["op"] in ("&&", "||", "==", "!="):
                return [(x, ("c", int(b)) if b is not None else None) for x, b in self.cond(e, s)]
            if e["op"] == ",":
                return [r for x, _ in self.ev(e["lhs"], s) for r in self.ev(e["rhs"], x)]
            return [(x2, None) for x, _ in self.ev(e["lhs"], s) for x2, _ in self.ev(e["rhs"], x)]
        if k == "cond":
            return [r for x, b in self.cond(e["c"], s) for y in ((e["a"], e["b"]) if b is None else (e["a"] if b else e["b"],)) for r in self.ev(y, x)]
        if k == "throw":
            for x, _ in self.ev(e.get("e"), s):
                self.raise_(x, e["l"])
            return []
        if k in ("call", "mcall", "ctor"):
            return self.call(e, s)
        if k == "new":
            out = []
            for x, _ in self.ev(e.get("init"), s):
                self.raise_(x, e["l"])
                x, v = self.fresh(x, "new", e["l"])
                x.res[v[1]] = ("live", "nonnull")
                out.append((x, v))
            return out
        if k == "delete":
            out = []
            for x, v in self.ev(e["e"], s):
                if v and v[0] == "r":
                    x = x.copy()
                    self.release(x, v[1], e["l"])
                out.append((x, None))
            return out
        if k == "mem" and e.get("arrow") and isinstance(e.get("b"), dict):
            out = []
            for x, v in self.ev(e["b"], s):
                self.use(x, v, e.get("l"), "the access to " + str(e.get("n") or e.get("m") or "a member"))
                out.append((x, None))
            return out
        # anything else: its parts in order
        xs = [s]
        for c in children(e):
            xs = [y for x in xs for y, _ in self.ev(c, x)]
        return [(x, None) for x in xs]

    def raise_(self, s, line):
        self.exc[-1].append((s, line))

    def fresh(self, s, name, line):
        s = s.copy()
        rid = (name, line, self.depth)
        i = 0
        while (rid + (i,)) in s.res:
            i += 1
            if i > 3:
                raise Undecided("resource obtained in a loop")
        rid = rid + (i,)
        s.res[rid] = ("live", "maybe")
        self.acq[rid] = (name, line)
        return s, ("r", rid)

    def release(self, s, rid, line):
        st, nul = s.res[rid]
        if st == "freed" and nul != "null":
            self.err("double", line, f"{self.name(rid)} is released again")
        if st == "owned" and nul != "null":
            self.err("double", line, f"{self.name(rid)} is released although its owner releases it")
        s.res[rid] = ("freed", nul)

    def name(self, rid):
        return f"the result of {self.acq[rid][0]} (line {self.acq[rid][1]})"

    def use(self, s, v, line, what):
        if v and v[0] in ("r", "o") and v[1] in s.res:
            st, nul = s.res[v[1]]
            if nul != "nonnull":
                self.err("unchecked", line, f"{self.name(v[1])} is passed to {what} although obtaining it may have failed")
            if st == "freed":
                self.err("after", line, f"{self.name(v[1])} is passed to {what} after it was released")

    def assign(self, e, s):
        out = []
        for x, v in self.ev(e["rhs"], s):
            l = e["lhs"]
            if l.get("k") == "var":
                x = x.copy()
                x.env[l["id"]] = v if v and v[0] != "&" else None
                out.append((x, v))
                continue
            for y, _ in self.ev(l, x):
                if v and v[0] == "r":
                    raise Undecided("resource kept outside the function")
                out.append((y, v))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, e, s):
        c = self.m.callee.get(e.get("f")) or self.m.fn.get(e.get("f")) or {}
        name = c.get("n") or (e.get("f") or "?")
        xs = [(s, [])]
        obj = e.get("o")
        if obj is not None:
            xs = [(y, [v]) for y, v in self.ev(obj, s)]
        for a in e.get("a", []):
            xs = [(y, vs + [v]) for x, vs in xs for y, v in self.ev(a, x)]
        out = []
        for x, vs in dedupe([(x, tuple(vs)) for x, vs in xs]):
            out += self.apply(e, c, name, x, list(vs), obj is not None)
        return dedupe(out)

    def apply(self, e, c, name, s, vs, ismeth):
        line = e["l"]
        this, args = (vs[0], vs[1:]) if ismeth else (None, vs)
        cls = e.get("cls") or c.get("cls") or ""
        if e["k"] == "ctor" and OWNERS.search(cls):
            s = s.copy()
            v = next((a for a in args if a and a[0] in ("r", "o")), None)
            if v is None:
                return [(s, ("null",) if not args or args[0] == ("null",) else None)]
            if v[0] == "r":
                st, nul = s.res[v[1]]
                if st == "owned":
                    self.err("double", line, f"{self.name(v[1])} gets a second owner")
                if self.acq[v[1]][0].startswith("cholmod") and (PLAIN.search(cls) or "shared_ptr" in cls and len(args) == 1):
                    self.err("wrong", line, f"{self.name(v[1])} is given to an owner that ends it with delete and leaves its arrays allocated")
                s.res[v[1]] = ("owned", nul)
                self.temps[-1].append(v[1])
            return [(s, ("o", v[1]))]
        if e["k"] == "ctor" and "LogMessageFatal" in cls:
            return []
        if "LogMessageFatal" in cls:
            return []
        owner = ismeth and e.get("o") is not None and OWNERS.search(e["o"].get("t", "") or "") or \
            not ismeth and False
        if owner and (c.get("kind") == "conv" or name.startswith("operator") and name not in ("operator=", "operator&") or name == "get"):
            if name == "operator bool":
                return [(y, ("c", int(b)) if b is not None else None) for y, b in self.nullsplit(s, this, True)]
            return [(s, ("r", this[1]) if this and this[0] == "o" else this)]
        if owner and name == "release":
            s = s.copy()
            if this and this[0] == "o":
                s.res[this[1]] = ("live", s.res[this[1]][1])
            self.setobj(e, s, ("null",))
            return [(s, ("r", this[1]) if this and this[0] == "o" else this)]
        if owner and name in ("reset", "operator="):
            s = s.copy()
            if this and this[0] == "o":
                s.res[this[1]] = ("freed", s.res[this[1]][1])
            v = args[0] if args else ("null",)
            if v and v[0] == "r":
                s.res[v[1]] = ("owned", s.res[v[1]][1])
                v = ("o", v[1])
            self.setobj(e, s, v)
            return [(s, v)]
        if owner and name == "operator&":
            return [(s, None)]
        if c.get("externC") and FREE.search(name):
            s = s.copy()
            for a in args:
                if a and a[0] == "&":
                    v = s.env.get(a[1])
                    if v and v[0] == "r":
                        self.release(s, v[1], line)
                        s.env[a[1]] = ("null",)
                elif a and a[0] in ("r", "o"):
                    if a[0] == "o" or s.res[a[1]][0] == "owned":
                        self.err("double", line, f"{self.name(a[1])} is released although its owner releases it")
                    else:
                        self.release(s, a[1], line)
            return [(s, None)]
        g = self.m.fn.get(e.get("f"))
        res = [a for a in [this] + args if a and a[0] in ("r", "o")]
        inrepo = g is not None and g.get("body") is not None and g["file"].startswith(REPO)
        if inrepo and (res or e.get("tk") == "p") and self.depth < 4 and not g.get("virtual"):
            return self.inline(g, s, args)
        for a in [this] + args:
            if a and a[0] == "&":
                a = s.env.get(a[1])
            self.use(s, a, line, name)
        if e["k"] == "mcall":
            for k, step in STEPS.items():
                if name == step:
                    s = s.copy()
                    s.done = s.done | {step}
        if not (c.get("externC") or c.get("noexcept") or e["k"] == "ctor" and not args):
            self.raise_(s, line)
            self.calls += 1
        if c.get("noreturn"):
            return []
        if c.get("externC") and e.get("tk") == "p" and "cholmod" in e.get("t", ""):
            s, v = self.fresh(s, name, line)
            return [(s, v)]
        return [(s, None)]

    def setobj(self, e, s, v):
        o = e.get("o")
        while isinstance(o, dict) and o.get("k") == "cast":
            o = o["e"]
        if isinstance(o, dict) and o.get("k") == "var":
            s.env[o["id"]] = v

    def inline(self, g, s, args):
        self.depth += 1
        old = self.f
        self.f = g
        try:
            x = s.copy()
            saved = dict(x.env)
            for p, a in zip(g["params"], args):
                if p.get("id") is None:
                    raise Undecided("parameter without identity")
                x.env[p["id"]] = a
            out = []
            for kind, y, v in self.stmt(g["body"], x):
                y = y.copy()
                y.env = dict(saved)
                out.append((y, v))
            return out
        finally:
            self.f = old
            self.depth -= 1

    # ---------------------------------------------------------------- conditions: [(state, True/False/None)]
    def nullsplit(self, s, v, nonnull):
        if v == ("null",):
            return [(s, not nonnull)]
        if v and v[0] in ("r", "o") and v[1] in s.res:
            st, nul = s.res[v[1]]
            if nul != "maybe":
                return [(s, (nul == "nonnull") == nonnull)]
            a, b = s.copy(), s.copy()
            a.res[v[1]], b.res[v[1]] = (st, "nonnull"), (st, "null")
            return [(a, nonnull), (b, not nonnull)]
        if v and v[0] == "c":
            return [(s, bool(v[1]) == nonnull)]
        return [(s, True), (s, False)]

    def cond(self, e, s):
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(x, None if b is None else not b) for x, b in self.cond(e["e"], s)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for x, b in self.cond(e["lhs"], s):
                if b == (e["op"] == "||"):
                    out.append((x, b))
                else:
                    out += self.cond(e["rhs"], x)
            return out
        if k in ("bin", "call", "mcall") and (e.get("op") in ("==", "!=") or self.opname(e) in ("operator==", "operator!=")):
            eq = e.get("op") == "==" or self.opname(e) == "operator=="
            l, r = (e["lhs"], e["rhs"]) if k == "bin" else ([e["o"]] + e["a"] if k == "mcall" else e["a"])
            out = []
            for x, a in self.ev(l, s):
                for y, b in self.ev(r, x):
                    if a == ("null",):
                        a, b = b, a
                    if b == ("null",):
                        out += self.nullsplit(y, a, not eq)
                    elif b and b[0] == "c" and a and a[0] == "c":
                        out.append((y, (a[1] == b[1]) == eq))
                    else:
                        out += [(y, True), (y, False)]
            return out
        if k == "call" and "__builtin_expect" in str(e.get("f")):
            return self.cond(e["a"][0], s)
        if k == "cast":
            return self.cond(e["e"], s)
        return [r for x, v in self.ev(e, s) for r in self.nullsplit(x, v, True)]

    def opname(self, e):
        return (self.m.callee.get(e.get("f")) or self.m.fn.get(e.get("f")) or {}).get("n") if e["k"] in ("call", "mcall") else None

    # ---------------------------------------------------------------- statements: [(kind, state, value)]
    def full(self, f):
        """a full expression: owners that are not bound to a name end with it"""
        self.temps.append([])
        try:
            return f()
        finally:
            self.temps.pop()

    def end(self, s, bound=None):
        """state after a full expression: temporaries are destroyed"""
        dead = [r for r in self.temps[-1] if r in s.res and s.res[r][0] == "owned" and not (bound and bound[0] == "o" and bound[1] == r)
                and not any(v == ("o", r) for v in s.env.values())]
        if dead:
            s = s.copy()
            for r in dead:
                s.res[r] = ("freed", s.res[r][1])
        return s

    def stmt(self, n, s):
        if n is None:
            return [("n", s, None)]
        k = n.get("s")
        if k == "seq" or k is None and "b" in n and isinstance(n["b"], list):
            return self.block(n["b"], s)
        if k == "expr":
            return self.full(lambda: [("n", self.end(x), None) for x, _ in self.ev(n["e"], s)])
        if k == "decl":
            return [("n", x, None) for x in self.decls(n["v"], s)]
        if k == "ret":
            e = n.get("e")
            if e is None:
                return [("r", s, None)]
            if e.get("tk") == "b":
                return self.full(lambda: [("r", self.end(x), None if b is None else ("c", int(b))) for x, b in self.cond(e, s)])
            return self.full(lambda: [("r", self.end(x, v), v) for x, v in self.ev(e, s)])
        if k == "if":
            out = []
            pre = [s]
            if n.get("init"):
                pre = [x for _, x, _ in self.stmt(n["init"], s)]
            if n.get("cv"):
                pre = [y for x in pre for y in self.decls([n["cv"]], x)]
            for p in pre:
                self.temps.append([])
                cs = dedupe(self.cond(n["c"], p))
                cs = [(self.end(x), b) for x, b in cs]
                self.temps.pop()
                for x, b in cs:
                    if b is None or b:
                        out += self.stmt(n.get("t"), x)
                    if b is None or not b:
                        out += self.stmt(n.get("e"), x)
            return self.uniq(out)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(n, s)
        if k == "sw":
            out = [("n", s, None)]
            for x, _ in self.ev(n["c"], s):
                out += self.stmt(n["b"], x)
            return self.uniq([("n" if kk == "b" else kk, x, v) for kk, x, v in out])
        if k in ("case", "default", "label"):
            return self.stmt(n.get("b"), s)
        if k == "brk":
            return [("b", s, None)]
        if k == "cont":
            return [("c", s, None)]
        if k == "try":
            return self.try_(n, s)
        if k in ("goto", "unk"):
            raise Undecided(k)
        return [("n", s, None)]

    def uniq(self, xs):
        seen, out = set(), []
        for k, s, v in xs:
            q = (k, s.key(), v)
            if q not in seen:
                seen.add(q)
                out.append((k, s, v))
        if len(out) > MAX:
            raise Undecided("too many states")
        return out

    def decls(self, vs, s):
        xs = [s]
        for v in vs:
            nx = []
            for x in xs:
                self.temps.append([])
                for y, val in self.ev(v.get("init"), x):
                    y = y.copy()
                    keep = val if OWNERS.search(v.get("t", "")) else None
                    y.env[v["id"]] = val if val and val[0] != "&" else None
                    y2 = self.end(y, keep)
                    if keep is None and val and val[0] == "o":
                        y2.env[v["id"]] = ("r", val[1])
                    nx.append(y2)
                self.temps.pop()
            xs = [x for x, _ in dedupe([(x, None) for x in nx])]
        return xs

    def block(self, ns, s):
        mark = len(self.exc[-1])
        cur, out = [s], []
        names = set()
        for n in ns:
            if n.get("s") == "decl":
                names |= {v["id"] for v in n["v"]}
            nxt = []
            for x in cur:
                for k, y, v in self.stmt(n, x):
                    (nxt if k == "n" else out).append(y if k == "n" else (k, y, v))
            cur = [x for x, _ in dedupe([(x, None) for x in nxt])]
        res = self.uniq(out + [("n", x, None) for x in cur])
        fin = [(k, self.leave(y, names, v), v) for k, y, v in res]
        for i in range(mark, len(self.exc[-1])):
            y, line = self.exc[-1][i]
            self.exc[-1][i] = (self.leave(y, names), line)
        return fin

    def leave(self, s, names, ret=None):
        """owners declared in the block end with it"""
        hit = [i for i in names if s.env.get(i) is not None]
        if not hit:
            return s
        s = s.copy()
        for i in hit:
            v = s.env.pop(i)
            if v[0] == "o" and s.res[v[1]][0] == "owned" and not (ret and ret == v) and not any(w == v for w in s.env.values()):
                s.res[v[1]] = ("freed", s.res[v[1]][1])
        return s

    def loop(self, n, s):
        xs = [s]
        if n.get("init"):
            xs = [x for _, x, _ in self.stmt(n["init"], s)]
        out, seen, exits = [], set(), []
        first = n["s"] == "do"
        for _ in range(12):
            nxt = []
            for x in xs:
                if x.key() in seen and not first:
                    continue
                seen.add(x.key())
                cs = [(x, True)] if first else self.cond(n["c"], x) if isinstance(n.get("c"), dict) else [(x, True), (x, False)]
                for y, b in cs:
                    if b is None or not b:
                        exits.append(("n", y, None))
                    if b is None or b:
                        for k, z, v in self.stmt(n.get("b"), y):
                            if k in ("n", "c"):
                                nxt += [w for w, _ in self.ev(n.get("inc"), z)]
                            elif k == "b":
                                exits.append(("n", z, None))
                            else:
                                out.append((k, z, v))
            first = False
            xs = [x for x, _ in dedupe([(x, None) for x in nxt]) if x.key() not in seen]
            if not xs:
                return self.uniq(out + exits)
        raise Undecided("loop over resources")

    def try_(self, n, s):
        self.exc.append([])
        out = self.stmt(n["b"], s)
        raised = self.exc.pop()
        raised = [(x, l) for (x, l) in {(x.key(), l): (x, l) for x, l in raised}.values()]
        hs = n.get("h") or n.get("handlers") or []
        all_ = any(not h.get("t") or h["t"] == "..." for h in hs)
        for x, l in raised:
            for h in hs:
                y = x.copy()
                y.caught = True
                for k, z, v in self.stmt(h["b"], y):
                    out.append((k, z, v))
            if not all_:
                self.exc[-1].append((x, l))
        return self.uniq(out)

    # ---------------------------------------------------------------- whole function
    def run(self):
        f = self.f
        outs = self.stmt(f["body"], S())
        raised = self.exc[0]
        for x, line in raised:
            for rid, (st, nul) in x.res.items():
                if st == "live" and nul != "null":
                    self.err("leak", line, f"{self.name(rid)} is not released when the call in line {line} raises")
        for k, x, v in outs:
            for rid, (st, nul) in x.res.items():
                if st == "live" and nul != "null" and not (v and v[0] in ("r", "o") and v[1] == rid):
                    self.err("leak", f["line"], f"{self.name(rid)} is not released on a normal way out")
                if nul == "null" and k in ("r", "n"):
                    if f["rtk"] == "b" and v == ("c", 1):
                        self.err("unreported", f["line"], f"obtaining {self.name(rid)} failed and true is returned")
                    if f["rtk"] == "v":
                        self.err("unreported", f["line"], f"obtaining {self.name(rid)} failed and the caller is not told")
            if x.caught and f["rtk"] == "b" and v == ("c", 1):
                self.err("unreported", f["line"], "an exception is swallowed and true is returned")
            if x.caught and f["rtk"] == "v":
                self.err("unreported", f["line"], "an exception is swallowed and the caller is not told")
            step = STEPS.get(f["n"])
            if step and f["rtk"] == "b" and v == ("c", 1) and step not in x.done and not x.caught:
                self.err("skipped", f["line"], f"true is returned although {step} was not called")
        return outs


def children(e):
    for k, v in e.items():
        if isinstance(v, dict) and "k" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x:
                    yield x


def check(R):
    R.rule("ownership typestate over the statement tree with an exceptional edge at every call that is not known not to raise: each object "
           "obtained from the sparse matrix library (or by new) is released exactly once on every way out, by an owner or by a matching release")
    R.rule("it reaches no call but its release unless the path has established that obtaining it succeeded, and none after its release")
    R.rule("a way out on which obtaining failed or an exception was swallowed reports failure; success is reported only after the step was taken")
    m = load("tsvd")
    n = 0
    for fid, f in sorted(m.fn.items(), key=lambda x: (x[1]["file"], x[1]["line"])):
        if not f["file"].startswith(REPO) or f.get("body") is None:
            continue
        R.functions.add(f["q"])
        w = Walk(m, f)
        key = fkey(f)
        try:
            w.run()
        except Undecided as e:
            R.und(key, where(f), str(e))
            continue
        n += len(w.acq)
        kinds = {}
        for kind, line, msg in w.bad:
            kinds.setdefault(kind, (line, msg))
        for kind, (line, msg) in kinds.items():
            R.viol(f"{key}/{kind}", where(f, line), msg)
        if not kinds:
            R.ok(key, where(f), f"{len(w.acq)} objects obtained, {w.calls} calls that may raise")
    if not n:
        R.lost("objects obtained by the solver adapter")
    for name in STEPS:
        if not any(f["n"] == name and f.get("body") is not None and f["file"].startswith(REPO) for f in m.fn.values()):
            R.lost(name)
