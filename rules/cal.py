"""Calibrators of the examples: design-variable holders, measurement buffers,
batches and predictions.

Holders, buffers, records and entry points are found by what they do (types of
the members, events of the summaries), not by their names.
"""
import re

from sa.project import load, ExtractError
from sa.lib import *
from sa.ev import Interp, isn, M, Tok, Open, Bottom, Outside
from .err import flat

GROUPS = ("car", "time_delay", "egomotion_sensors")
VALUE = ("getParameters", "getValue", "toEuclidean", "toScalar", "value", "toValue", "evaluate")


def sp(t):
    """pointee of a smart or plain pointer type"""
    t = re.sub(r"^const |\s*[&]$", "", t.strip()).strip()
    m = re.match(r"(?:boost|std)::(?:shared_ptr|unique_ptr)<(.*)>$", t)
    return m.group(1).strip() if m else None


def targs(t):
    """top-level template arguments"""
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for ch in t[i + 1:t.rfind(">")]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<(" 
        d -= ch in ">)"
        cur += ch
    return out + [cur.strip()]


def dvdim(m, t):
    """number of reported components of a design variable type, None: not one"""
    b = re.sub(r"^aslam::(backend|calibration)::", "", t)
    if not ("DesignVariable" in b or any("DesignVariable" in x for x in m.bases(t)) or
            re.match(r"(Scalar|EuclideanPoint|RotationQuaternion|GenericScalar<.*>)$", b)):
        return None
    x = re.search(r"VectorDesignVariable<(\d+)>", b)
    if x:
        return int(x.group(1))
    return 1 if b == "Scalar" or b.startswith("GenericScalar") or "Time" in b else 3


class Holder:
    """class holding design variables through shared pointers"""

    def __init__(self, L, group, cls):
        self.L, self.group, self.cls = L, group, cls
        self.short = f"{group}/{cls.split('::')[-1]}"
        self.single = {}    # member -> (type, dim)
        self.tables = {}    # member -> [(type, dim)]: container of tuples of variables
        for n, f, o in L.m.all_fields(cls):
            t = f["t"]
            p = sp(t)
            if p:
                d = dvdim(L.m, p)
                if d:
                    self.single[n] = (p, d)
                continue
            x = re.search(r"std::tuple<", t)
            if x and re.search(r"(map|vector|deque|list)<", t):
                tt = t[x.start():]
                d = 0
                for k, ch in enumerate(tt):
                    d += ch == "<"
                    d -= ch == ">"
                    if ch == ">" and d == 0:
                        tt = tt[:k + 1]
                        break
                es = [(sp(a), dvdim(L.m, sp(a) or "")) for a in targs(tt)]
                if es and all(a and d for a, d in es):
                    self.tables[n] = es

    def base(self, n):
        return fld(mk("deref", sym("this")), n)

    def member(self, t):
        """member designated by a pointer term: name or (table, element)"""
        while isinstance(t, T) and t.op == "deref" or isinstance(t, T) and t.op == "call" and t.a[0] in ("get",) and len(t.a) == 2:
            t = t.a[-1]
        for n in self.single:
            if t is self.base(n):
                return n
        if isinstance(t, T) and t.op == "fld":
            x = re.match(r"get<(\d+)>$", str(t.a[1]))
            if x:
                for n in self.tables:
                    b = self.base(n)
                    if contains(t.a[0], lambda y: y is b):
                        return (n, int(x.group(1)))
        return None

    def member2(self, t):
        """member of the holder owned by another object that a pointer term designates"""
        while isinstance(t, T) and (t.op == "deref" or t.op == "call" and t.a[0] == "get" and len(t.a) == 2):
            t = t.a[-1]
        if not isinstance(t, T) or t.op != "fld":
            return None
        if t.a[1] in self.single and not contains(t.a[0], lambda x: x.op == "fld" and (x.a[1] in self.single or x.a[1] in self.tables)):
            return t.a[1]
        x = re.match(r"get<(\d+)>$", str(t.a[1]))
        if x:
            for n in self.tables:
                if contains(t.a[0], lambda y: y.op == "fld" and y.a[1] == n):
                    return (n, int(x.group(1)))
        return None

    def what(self, k):
        return k if isinstance(k, str) else f"{k[0]}.get<{k[1]}>"

    def all(self):
        return list(self.single) + [(n, i) for n, es in self.tables.items() for i in range(len(es))]

    def dim(self, k):
        return self.single[k][1] if isinstance(k, str) else self.tables[k[0]][k[1]][1]


def holders(R, groups=GROUPS):
    out = []
    for g in groups:
        try:
            m = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
            continue
        L = Lib(m, R)
        for c in sorted(m.rec):
            if m.rec[c].get("inrepo"):
                h = Holder(L, g, c)
                if len(h.single) + sum(len(x) for x in h.tables.values()) >= 2:
                    out.append(h)
    if not out:
        R.lost("classes holding design variables")
    return out


class CI(Interp):
    """interpretation in which every component of every design variable has its own value"""
    holder = None

    def op_uninit(self, t, *a):
        if a[0] == "Eigen" and len(a) == 2:
            n = self(a[1])
            if isn(n) and 0 <= n < 200:
                return M(int(n), 1, [Tok("unset", i) for i in range(int(n))])
        raise Bottom("uninitialised")

    def uniq(self, *k):
        import hashlib
        h = hashlib.md5(repr(k).encode()).digest()
        return Fraction(int.from_bytes(h[:6], "big"), 7919)

    def op_call(self, t, n, *a):
        h = self.holder
        if h is not None and a:
            k = h.member(a[0])
            if k is not None:
                if n in VALUE and len(a) == 1:
                    d = h.dim(k)
                    e = [self.uniq(k, i) for i in range(d)]
                    return e[0] if n in ("toScalar",) else M(d, 1, e)
                if n == "getQuaternion":
                    return M(4, 1, [self.uniq(k, "q", i) for i in range(4)])
        return Interp.op_call(self, t, n, *a)

    def op_fld(self, t, b, n):
        h = self.holder
        if h is not None and n in ("_value", "value_", "_p", "_v"):
            k = h.member(b)
            if k is not None:
                return M(h.dim(k), 1, [self.uniq(k, i) for i in range(h.dim(k))])
        return Interp.op_fld(self, t, b, n)

    def fn(self, n, v):
        h = self.holder
        if n == "rotationMatrixToParameters" and h is not None:
            for k in h.all():
                q = M(4, 1, [self.uniq(k, "q", i) for i in range(4)])
                if v and isinstance(v[-1], Tok) and v[-1].key() == Tok("quat2r", q).key():
                    return M(3, 1, [self.uniq(k, i) for i in range(3)])
        if n == "quat2r" and len(v) == 1:
            return Tok("quat2r", v[0])
        return Interp.fn(self, n, v)


# ------------------------------------------------------------------ calibrators
def this(n):
    return fld(mk("deref", sym("this")), n)


CONT = re.compile(r"(?:std::)?(?:vector|deque|list|map|unordered_map)<")


class Cal:
    """class owning an incremental estimator and measurement buffers"""

    def __init__(self, L, group, cls):
        self.L, self.group, self.cls = L, group, cls
        self.short = f"{group}/{cls.split('::')[-1]}"
        self.fields = {n: f["t"] for n, f, _ in L.m.all_fields(cls)}
        self.est = [n for n, t in self.fields.items() if (sp(t) or "").endswith("IncrementalEstimator")]
        self.splines = [n for n, t in self.fields.items() if "Spline" in (sp(t) or "")]
        self.seqs = [n for n, t in self.fields.items() if CONT.match(t)]
        self.undecided = {}
        self.meth = {}
        if not self.est:
            return
        for f in sorted(L.m.methods(cls), key=lambda f: f["id"]):
            if f.get("body") is None or f["kind"] != "method" or f.get("static"):
                continue
            try:
                self.meth[f["id"]] = (f, [o for o in L.run(f) if o.kind == "ret"])
            except Undecided as e:
                self.undecided[f["id"]] = (f, str(e))

    def having(self, ev, npar=None):
        """methods whose summaries contain the event"""
        return [(f, os_) for f, os_ in self.meth.values() if (npar is None or len(f["params"]) == npar) and
                any(e.name == ev for o in os_ for e in flat(o.trace))]

    def buffer_of(self, rng_or_term):
        """the sequence member whose elements a term ranges over or reads"""
        for n in self.seqs:
            b = this(n)
            if contains(rng_or_term, lambda x: x is b):
                return n
        return None


def calibrators(R, groups=GROUPS):
    out = []
    for g in groups:
        try:
            m = load(g)
        except ExtractError as e:
            R.lost(f"{g}: {e}")
            continue
        L = Lib(m, R)
        for c in sorted(m.rec):
            r = m.rec[c]
            if r.get("inrepo") and any((sp(f["t"]) or "").endswith("IncrementalEstimator") for f in r["fields"]):
                out.append(Cal(L, g, c))
    if not out:
        R.lost("classes owning an incremental estimator")
    return out


def loops(tr, up=()):
    """[(loop event, enclosing alternative facts)] of a trace, outermost first"""
    for e in tr:
        if isinstance(e, LoopEv):
            yield e, up
            for k, fs, t in e.alts:
                yield from loops(t, up + ((e, fs),))


class Canon:
    """terms of different runs made comparable: allocation numbers, loop variables and the state of the spline objects are named by role"""

    def __init__(self):
        self.memo = {}
        self.carried = set()

    def root(self, t):
        """spline object a term is a state of"""
        while True:
            if t.op == "deref" and t.a[0].op == "new":
                n = t.a[0]
                return n if "Spline" in str(n.a[0]) else None
            if t.op == "mut":
                t = t.a[1]
            elif t.op == "out":
                i = t.a[1]
                k = [x for x in t.a[2:] if isinstance(x, T) and self.root(x) is not None]
                if not k:
                    return None
                t = k[0]
            elif t.op == "loop":
                t = t.a[3][t.a[1]]
            elif t.op == "phi":
                t = t.a[2]
            elif t.op in ("fold", "setrange"):
                t = t.a[1]
            elif t.op == "after":
                return None
            else:
                return None

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op in ("mut", "out", "loop", "phi", "deref", "fold", "setrange"):
            n = self.root(t)
            if n is not None:
                r = sym("object " + str(n.a[0]))
                self.memo[t] = r
                return r
        if t.op == "new":
            r = sym("object " + str(t.a[0])) if "Spline" in str(t.a[0]) else mk("new", t.a[0], self(t.a[1]), "")
        elif t.op == "iv":
            r = sym(f"iteration {t.a[0]}")
            TYPES[r] = "long"
        elif t.op == "phi":
            i = self(t.a[2])
            r = sym(f"carried {t.a[0]} {show(i)}")
            self.carried.add((t, r))
        else:
            a = tuple(self(x) for x in t.a)
            r = rebuild(t.op, a) if a != t.a else t
            if t in TYPES and r not in TYPES:
                TYPES[r] = TYPES[t]
        self.memo[t] = r
        return r
