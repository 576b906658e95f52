"""Contract checking on summaries: compose public operations symbolically and
compare their outcomes with specification functions on representative models."""
import re

from .engine import Engine, Undecided, St, Outcome, TYPES, Ev, LoopEv
from .ev import constants, Interp, Open, Bottom, Outside, Refused, Uninit, equal, ck, fmt, M, Seq, Tok, isn
from .model import dims
from .norm import NF, is_open
from .project import REPO
from .terms import *

THIS = (("o", sym("this")), ())
OTHER = (("o", sym("other")), ())


def where(f, line=None):
    p = f.get("file") or f.get("loc") or f.get("tu") or ""
    return f"{p.replace(REPO + '/', '')}:{line or f.get('line')} ({f['q']})"


class Lib:
    def __init__(self, model, R, **kw):
        self.m = model
        self.R = R
        self.E = Engine(model, **kw)
        self.cache = {}
        self.keep = []
        self.witness = None

    # ------------------------------------------------------------ lookup
    def classes(self, pat, inrepo=True):
        """record names fully matching the regex"""
        return sorted(k for k, r in self.m.rec.items() if re.fullmatch(pat, k) and (r.get("inrepo") or not inrepo))

    def methods(self, cls, name=None, n=None, const=None, kind=None, pred=None, defined=True):
        out = []
        for c in [cls] + self.m.bases(cls):
            got = []
            for f in self.m.methods(c):
                if name is not None and f["n"] != name:
                    continue
                if n is not None and len(f["params"]) != n:
                    continue
                if const is not None and bool(f.get("const")) != const:
                    continue
                if kind is not None and f["kind"] not in kind:
                    continue
                if pred is not None and not pred(f):
                    continue
                got.append(f)
            out += [f for f in got if not any(f["n"] == g["n"] and ptypes(f) == ptypes(g) and f.get("const") == g.get("const")
                                              for g in out)]
        return out

    def method(self, cls, name, n=None, const=None, pred=None):
        r = self.methods(cls, name, n, const, pred=pred)
        if not r:
            self.R.lost(f"{cls}::{name}/{n}")
            return None
        return r[0]

    def free(self, q, pred=None):
        return [f for f in self.m.fn.values() if f["q"] == q and (pred is None or pred(f))]

    # ------------------------------------------------------------ summaries
    def run(self, f, st=None, args=None, this=None, dyn=None):
        key = (f["id"], id(st), tuple(args) if args else None, this, dyn)
        if key in self.cache:
            r, log = self.cache[key]
            dict.update(TYPES, log)
            if isinstance(r, Exception):
                raise r
            return r
        self.keep.append(st)
        outer, TYPES.log = TYPES.log, {}
        try:
            r = self.E.run(f["id"], this=this, args=args, st=st, dyn=dyn)
        except Undecided as e:
            r = e
        except RecursionError:
            r = Undecided("recursion")
        finally:
            log = TYPES.log
            TYPES.log = outer
            if outer is not None:
                outer.update(log)
            for x in self.E.analysed:
                self.R.functions.add(self.m.fn[x]["q"])
        self.cache[key] = (r, log)
        if isinstance(r, Exception):
            raise r
        return r

    def rd(self, st, path, this=THIS):
        return self.E.read(st, (this[0], this[1] + tuple(path)))


    def cargs(self, f, pre="c"):
        """fresh symbolic arguments for f"""
        out = []
        for p in f["params"]:
            y = sym(pre + "." + (p["n"] or "_"))
            if p["ref"] == "v":
                TYPES[y] = p["t"]
                out.append(y)
            else:
                TYPES[mk("deref", y)] = p["t"].replace("const ", "").replace(" &", "")
                out.append((("o", y), ()))
        return out

    def constructed(self, cls, this=THIS, pre="c"):
        """[(ctor, state)] after every non-copy constructor of cls"""
        key = ("constructed", cls, this, pre)
        if key not in self.cache:
            r = []
            outer, TYPES.log = TYPES.log, {}
            for f in self.m.methods(cls):
                if f["kind"] == "ctor" and f.get("body") is not None and f.get("access") != "private":
                    try:
                        for o in self.run(f, args=self.cargs(f, pre), this=this):
                            if o.kind == "ret":
                                r.append((f, o.st))
                    except Undecided:
                        pass
            self.cache[key] = r, TYPES.log
            TYPES.log = outer
        r, log = self.cache[key]
        dict.update(TYPES, log)
        return r

    def reachable(self, f, match, n=160):
        """can an outcome selected by `match` occur on a constructed object?
        True/False, None when no constructor is available"""
        cs = self.constructed(f["cls"]) if f.get("cls") and not f.get("static") else [(None, St())]
        if not cs:
            return None
        for i, p in enumerate(f["params"]):
            t = p["t"].replace("const ", "").replace(" &", "").strip()
            if p["ref"] == "v" or not self.m.rec.get(t, {}).get("inrepo"):
                continue
            more = self.constructed(t, (("o", sym(f"arg{i}")), ()), f"a{i}")
            if more:
                cs = [(c, join(st, s2)) for c, st in cs for _, s2 in more]
        from .ev import Loose
        for c, st in cs:
            s0 = St({r: d for r, d in st.store.items()}, st.facts, (), {})
            try:
                outs = [o for o in self.run(f, st=s0) if match(o)]
            except Undecided:
                return None
            for o in outs:
                for i in range(n):
                    I = Loose(104729 * i + 7, None, ("mix", "gen", "pos")[i % 3])
                    try:
                        h = holds(o.facts, I)
                        if h in (True, None):
                            self.witness = (h, desc(I))
                            return True
                    except Bottom:
                        pass
        return False


def join(a, b):
    """states about different objects put together"""
    st = St({**a.store, **b.store}, a.facts, (), {})
    for k, v in b.facts.d.items():
        st = st.assume(k, v)
    return st


def invariant(L, cls, name, expr, at, n=40):
    """is the member `name` of every object of cls equal to expr, a term over the members of the object at `at`?
    Decided on every constructed object and after every operation on it; a member that is handed out for modification has no invariant"""
    fields = [x for x, _, _ in L.m.all_fields(cls)]
    leaf = {x: L.E.read(St(), (at[0], at[1] + (x,))) for x in fields}
    used = {x for x in fields if contains(expr, lambda t: t is leaf[x])}
    if not used or name in used:
        return False
    states = [st for _, st in L.constructed(cls)]
    if not states:
        return False
    for g in L.m.methods(cls):
        if g["kind"] not in ("method", "massign") or g.get("const") or g.get("static") or g.get("body") is None:
            continue
        for _, st in L.constructed(cls):
            try:
                outs = L.run(g, St(st.store, st.facts, (), {}), L.cargs(g, "n"))
            except Undecided:
                return False
            for o in outs:
                if o.loc is not None and o.loc[0] == THIS[0] and o.loc[1] and g.get("rref") == "r":
                    return False
                if o.kind == "ret":
                    states.append(o.st)
    for st in states:
        hit = 0
        for i in range(n):
            I = Interp(6151 * i + 3, mode=("mix", "pos", "gen")[i % 3])
            try:
                if holds(st.facts, I) is not True:
                    continue
                J = Interp(I.seed, {**I.given, **{leaf[x]: I(L.rd(st, (x,))) for x in used}}, I.mode)
                if not equal(I(L.rd(st, (name,))), J(expr), 1e-9):
                    return False
                hit += 1
            except (Open, Bottom):
                continue
        if not hit:
            return False
    return True


def ptypes(f):
    return tuple(p["t"] for p in f["params"])


class Ambiguous(Open):
    pass


class Unsure(Outside):
    """raised behind a guard that could not be decided"""


class Thrown:
    """the outcome of a path on which a callee refuses"""
    kind, val, loc, line, st, trace = "throw", None, None, None, None, ()


def holds(facts, I):
    """True/False/None"""
    r = True
    for a, v in facts.d.items():
        try:
            b = I.bool(a)
        except Open:
            r = None
            continue
        except (Outside, Refused) as e:
            if r is None:
                raise Unsure(str(e))
            raise
        if b != v:
            return False
    return r


def pick(outs, I):
    """the outcome this representative model takes"""
    yes, may = [], []
    for o in outs:
        h = holds(o.facts, I)
        if h:
            yes.append(o)
        elif h is None:
            may.append(o)
    if may:
        # undecided guards: acceptable when every candidate has the same kind
        return yes + may, False
    return yes, True


def outcome(outs, I):
    c, sure = pick(outs, I)
    if not c:
        raise Open("no outcome applies")
    if len(c) > 1:
        if all(x.kind == "throw" for x in c):
            return c[0]
        if all(x.kind == "ret" for x in c):
            v = {}
            for x in c:
                try:
                    v[ck(I(x.val))] = x
                except (Open, Bottom):
                    raise Ambiguous("several outcomes")
            if len(v) == 1:
                return c[0]
        raise Ambiguous("several outcomes")
    if not sure:
        raise Ambiguous("undecided guard")
    return c[0]


class Spec:
    """helper passed to specification functions: evaluates calls on a model"""

    def __init__(self, L, I, st0=None):
        self.L, self.I, self.st0 = L, I, st0

    def call(self, f, st=None, args=None, this=None):
        """('throw',outcome) or ('ret', value, outcome)"""
        o = outcome(self.L.run(f, st, args, this), self.I)
        if o.kind == "throw":
            return ("throw", o)
        return ("ret", self.I(o.val) if o.val is not None else None, o)

    def get(self, f, st=None, args=None, this=None):
        r = self.call(f, st, args, this)
        if r[0] == "throw":
            raise Bottom("observer throws")
        return r[1]


def desc(I):
    return ", ".join(f"{show(k)}={fmt(v)}" for k, v in list(I.leaves.items())[:12])


def contract(L, R, key, f, spec, st=None, args=None, this=None, n=240, mode="mix", given=None, need=("ret",), maxlen=3, dyn=None, quiet=False,
             tol=1e-7, cls=Interp, same=None, strict=True, written=False):
    """spec(S, o) -> None | 'throw' | list of (label, expected, actual-thunk) evaluated on each model.

    spec returns ('throw',) when the operation must be refused, else a list of
    checks (label, got, want); got/want are values."""
    w = where(f)
    try:
        outs = L.run(f, st, args, this, dyn)
    except Undecided as e:
        R.und(key, w, str(e))
        return
    cov = {"ret": 0, "throw": 0}
    opens = {}
    modes = [mode] if isinstance(mode, str) else list(mode)
    extra = constants(outs)
    for i in range(n if not extra else 2 * n):
        I = cls(7919 * i + 13, given(i) if callable(given) else given, modes[i % len(modes)], maxlen)
        I.extra = extra
        S = Spec(L, I, st)
        try:
            o = outcome(outs, I)
            want = spec(S, o)
            if want is None:
                continue
            onthrow = want[1] if isinstance(want, tuple) and len(want) == 2 and want[0] == "throw" else []
            wt = want == "throw" or isinstance(want, tuple) and want[0] == "throw"
            cov["throw" if wt else "ret"] += 1
            if wt != (o.kind == "throw"):
                R.viol(key, where(f, o.line), ("accepts what it must refuse" if wt else
                                               f"refuses ({o.val}) what it must accept") + " when " + desc(I))
                return cov
            for lab, got, exp in onthrow if wt else want:
                if not (same or equal)(got, exp, *(() if same else (tol,))):
                    R.viol(key + "/" + lab, w, f"{lab} is {fmt(got)}, expected {fmt(exp)} when {desc(I)}")
                    return cov
        except Refused as e:
            try:
                want = spec(S, Thrown)
            except Exception:
                want = None
            if isinstance(want, list):
                R.viol(key, w, f"refuses ({e}) what it must accept when " + desc(I))
                return cov
            opens["bottom " + str(e)] = opens.get("bottom " + str(e), 0) + 1
        except Uninit as e:
            if written:
                R.viol(key + "/unwritten", w, f"{e}: the value was never written, when {desc(I)}")
                return cov
            opens["bottom " + str(e)] = opens.get("bottom " + str(e), 0) + 1
        except Outside as e:
            if strict and not isinstance(e, Unsure):
                R.viol(key + "/outside", w, f"{e} when {desc(I)}")
                return cov
            opens["bottom " + str(e)] = opens.get("bottom " + str(e), 0) + 1
        except Bottom as e:
            opens["bottom " + str(e)] = opens.get("bottom " + str(e), 0) + 1
        except Open as e:
            opens[str(e)] = opens.get(str(e), 0) + 1
    missing = [k for k in need if not cov[k]]
    if quiet:
        return cov
    if missing:
        R.und(key, w, f"no representative model reached {missing}: {opens}")
    else:
        R.ok(key, w, f"agrees on {cov['ret']} serving and {cov['throw']} refusing models")
