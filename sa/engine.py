"""Abstract interpreter over the extracted model.

Every function is abstracted to a finite set of outcomes (return / throw); an
outcome carries the path facts, the value-numbered store and the ordered
external effects.  Loops with constant trip counts are unrolled; all other
loops are summarised once (modified locations are havocked, induction
variables and accumulators are recognised).  Nothing of the analysed program
is executed and no solver is involved; facts are only compared structurally or
through the ordering lattice {<,=,>}.
"""
import math
from .terms import *
from .model import dims


class Undecided(Exception):
    pass


SMARTPTR = ("shared_ptr", "unique_ptr", "scoped_ptr", "intrusive_ptr", "__shared_ptr_access", "weak_ptr")
IMPURE = {"random", "rand", "time", "gettimeofday", "localtime", "drand48", "rand_r", "clock", "now", "lrand48", "mrand48",
          "arc4random", "srandom", "srand", "srand48", "initstate", "setstate", "sleep", "usleep"}
EIG_ID = {"eval", "derived", "const_cast_derived", "noalias", "cast", "finished", "nestedExpression", "real"}
EIG_PROXY = {"block", "head", "tail", "segment", "col", "row", "diagonal", "topRows", "bottomRows", "leftCols",
             "rightCols", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "middleRows",
             "middleCols", "triangularView"}
STREAMY = ("basic_ostream", "basic_istream", "basic_ofstream", "basic_ifstream", "basic_stringstream", "ostringstream",
           "basic_iostream", "LogMessage", "basic_ostringstream")


def short(cls):
    """std::vector<int, ...> -> vector"""
    i = cls.find("<")
    s = cls if i < 0 else cls[:i]
    return s.split("::")[-1]


class Facts:
    """conjunction of atoms; consistent up to ordering of each term pair and numeric bounds"""
    __slots__ = ("d", "order", "lossy")

    def __init__(self, d=None, order=None, lossy=False):
        self.d = d or {}
        self.order = order or {}
        self.lossy = lossy

    def add(self, atom, val):
        """None if inconsistent"""
        if atom.op == "num":
            return self if (atom.a[0] != 0) == val else None
        if atom.op == "not":
            return self.add(atom.a[0], not val)
        if atom.op == "and" and val:
            f = self.add(atom.a[0], True)
            return f and f.add(atom.a[1], True)
        if atom.op == "or" and not val:
            f = self.add(atom.a[0], False)
            return f and f.add(atom.a[1], False)
        if atom in self.d:
            return self if self.d[atom] == val else None
        order = self.order
        if atom.op in ("lt", "le", "eq"):
            a, b = atom.a
            k, s = norm_pair(a, b)
            cur = order.get(k, frozenset((-1, 0, 1)))
            rel = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[atom.op]
            if not val:
                rel = {-1, 0, 1} - rel
            if s < 0:
                rel = {-x for x in rel}
            new = cur & rel
            if not new:
                return None
            if new != cur:
                order = dict(order)
                order[k] = frozenset(new)
                if not bounds_ok(order, k):
                    return None
        d = dict(self.d)
        d[atom] = val
        return Facts(d, order, self.lossy)

    def known(self, atom):
        """True/False if the facts determine atom, else None"""
        if atom.op == "num":
            return atom.a[0] != 0
        if atom.op == "not":
            r = self.known(atom.a[0])
            return None if r is None else not r
        if self.add(atom, True) is None:
            return False
        if self.add(atom, False) is None:
            return True
        return None

    def join(self, o):
        d = {k: v for k, v in self.d.items() if o.d.get(k) == v}
        f = Facts()
        for k, v in d.items():
            g = f.add(k, v)
            f = g if g is not None else f
        # what the two paths do not share is kept as one disjunction
        ea = [(k, v) for k, v in self.d.items() if k not in d]
        eb = [(k, v) for k, v in o.d.items() if k not in d]
        if ea and eb:
            if len(ea) == 1 and len(eb) == 1 and ea[0][0] is eb[0][0]:
                f.lossy = self.lossy or o.lossy
                return f
            # (x and y...) or (not x and z...): drop the shared atom when one side is just its negation
            if len(ea) + len(eb) > 24:
                f.lossy = True
                return f
            if len(ea) == 1:
                eb = [(k, v) for k, v in eb if (k, not v) != ea[0]] or eb
            elif len(eb) == 1:
                ea = [(k, v) for k, v in ea if (k, not v) != eb[0]] or ea
            g = f.add(lor(conj(ea), conj(eb)), True)
            f = g if g is not None else f
        f.lossy = self.lossy or o.lossy
        return f


def conj(fs):
    c = TRUE
    for a, v in fs:
        c = land(c, nots(a, v))
    return c


def norm_pair(a, b):
    """canonical key for comparing a with b: (difference-free pair), sign"""
    d = sub(a, b)
    # compare a constant-free linear form with a constant
    c = 0
    if d.op == "num":
        return (d, num(0)), 1
    if d.op == "add" and isnum(d.a[-1]):
        c = d.a[-1].a[0]
        d = add(*d.a[:-1])
    # d + c  ?  0   ->  d ? -c
    nd = neg(d)
    if nd.id < d.id:
        return (nd, num(c)), -1
    return (d, num(-c)), 1


def bounds_ok(order, key):
    """consistency of all facts 'd ? const' about the same d"""
    d = key[0]
    lo, lo_s, hi, hi_s = None, False, None, False
    neq = set()
    for (x, c), rel in order.items():
        if x is not d:
            continue
        v = c.a[0]
        if rel <= {0, 1}:
            s = 0 not in rel
            if lo is None or v > lo or (v == lo and s):
                lo, lo_s = v, s
        if rel <= {-1, 0}:
            s = 0 not in rel
            if hi is None or v < hi or (v == hi and s):
                hi, hi_s = v, s
        if rel == {-1, 1}:
            neq.add(v)
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and (lo_s or hi_s or lo in neq)):
            return False
    return True


class St:
    __slots__ = ("store", "facts", "trace", "env")

    def __init__(self, store=None, facts=None, trace=(), env=None):
        self.store = store if store is not None else {}
        self.facts = facts or Facts()
        self.trace = trace
        self.env = env if env is not None else {}

    def copy(self):
        return St(dict(self.store), self.facts, self.trace, dict(self.env))

    def with_facts(self, f):
        return St(self.store, f, self.trace, self.env)

    def ev(self, e):
        s = self.copy()
        s.trace = self.trace + (e,)
        return s

    def assume(self, atom, val):
        f = self.facts.add(atom, val)
        return None if f is None else self.with_facts(f)


class Ev:
    __slots__ = ("name", "recv", "old", "args", "line", "q", "new", "facts")

    def __init__(self, name, recv, old, args, line, q, new=None, facts=None):
        self.name, self.recv, self.old, self.args, self.line, self.q, self.new = name, recv, old, args, line, q, new
        self.facts = facts

    def key(self):
        return (self.name, self.recv, self.old, self.args)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.name}[{show(self.recv) if self.recv is not None else ''}]({','.join(show(a) for a in self.args)})@{self.line}"


EMPTYMAT = mk("fill", num(0), num(0), num(0))
EMPTYVEC = mk("fill", num(0), num(0))


class LoopEv:
    __slots__ = ("rng", "alts", "line", "partial", "nxt")

    def __init__(self, rng, alts, line, partial=False, nxt=()):
        self.rng, self.alts, self.line, self.partial = rng, alts, line, partial
        self.nxt = nxt      # per alternative: ((loop variable at the head, its value after the iteration), ...)

    def __eq__(self, o):
        return isinstance(o, LoopEv) and self.rng == o.rng and self.line == o.line and self.partial == o.partial and len(self.alts) == len(o.alts)

    def __hash__(self):
        return hash((self.rng, self.line))

    def __repr__(self):
        return f"Loop{'~' if self.partial else ''}[{show(self.rng) if self.rng is not None else '?'}]{{" + " | ".join(
            f"{k}:{list(t)} if {[(show(a), v) for a, v in f]}" for k, f, t in self.alts) + "}"


def drawn(trace, n):
    """how many values of n() a path has names for; those of the last iteration of a loop are named on the path"""
    return sum((x.name == n) if isinstance(x, Ev) else max((drawn(t, n) for _, _, t in x.alts), default=0) for x in trace)


class Frame:
    n = 0

    def __init__(self, fn, this):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn
        self.this = this


class Outcome:
    """kind: ret | throw"""

    def __init__(self, kind, st, val=None, line=None, facts0=None):
        self.kind, self.st, self.val, self.line = kind, st, val, line

    @property
    def facts(self):
        return self.st.facts

    @property
    def trace(self):
        return self.st.trace


class TypeTab(dict):
    """types of leaf terms; the entries of a run are logged so that they can be re-established with its cached summary"""
    log = None

    def __setitem__(self, k, v):
        if self.log is not None:
            self.log[k] = v
        dict.__setitem__(self, k, v)


TYPES = TypeTab()


# setters of the back end's error terms: they touch nothing of a derived class
BASE_SETTERS = {"setInvR", "setSqrtInvR", "setError", "setDesignVariables", "setDesignVariablesIterator"}


def half_away(x):
    """std::round"""
    return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)


class Engine:
    MAXSTATES = 400
    UNROLL = 18

    def __init__(self, model, opaque=None, may_throw=None, access=False, maxdepth=14, pure=None, identity=None, also=None, fresh=None):
        self.m = model
        self.identity = identity or (lambda c: False)     # calls whose value depends on which object, not on its state
        self.also = also or (lambda c, l, st: ())         # further objects an opaque call changes
        self.opaque = opaque or (lambda c: False)
        self.pure = pure or (lambda c: False)
        self.fresh = fresh or (lambda c: False)     # calls whose every evaluation is a value of its own
        self.may_throw = may_throw
        self.access = access
        self.maxdepth = maxdepth
        self.thr = [[]]
        self.depth = 0
        self.loopdepth = 0
        self.tmpn = 0
        self.stack = []
        self.notes = set()
        self.analysed = set()
        self.dyn = {}          # region -> most derived class of the object living there

    # ------------------------------------------------------------ memory
    def locterm(self, loc):
        r, p = loc
        if r[0] == "o" and p == ():
            return r[1]
        return mk("addr", r, p)

    def deref(self, t):
        if t.op == "addr":
            return (t.a[0], t.a[1])
        if t.op == "iter":
            l = t.a[0]
            base = (l.a[0], l.a[1])
            return (base[0], base[1] + (("i", (t.a[1],)),))
        return (("o", t), ())

    def default(self, root):
        if root[0] == "o":
            return mk("deref", root[1])
        if root[0] == "g":
            return mk("glob", root[1])
        return mk("unwritten", *[str(x) for x in root])

    @staticmethod
    def select(t, path):
        for s in path:
            if isinstance(s, str):
                t = fld(t, s)
            else:
                t = idx(t, *s[1])
        return t

    def read(self, st, loc):
        root, path = loc
        path = self.canon_path(path)
        # strip at first index selector
        k = next((i for i, s in enumerate(path) if not isinstance(s, str)), len(path))
        base = self.read0(st, root, path[:k])
        return self.select(base, path[k:])

    def canon_path(self, path):
        # [find(c,key)].second -> [key]
        out = []
        i = 0
        while i < len(path):
            s = path[i]
            if not isinstance(s, str) and len(s[1]) == 1 and isinstance(s[1][0], T) and s[1][0].op == "find" and \
               i + 1 < len(path) and path[i + 1] == "second":
                out.append(("i", (s[1][0].a[1],)))
                i += 2
                continue
            out.append(s)
            i += 1
        return tuple(out)

    def read0(self, st, root, path):
        d = st.store.get(root)
        if d is None:
            return self.select(self.default(root), path)
        v = None
        for n in range(len(path), -1, -1):
            if path[:n] in d:
                v = self.select(d[path[:n]], path[n:])
                break
        if v is None:
            v = self.select(self.default(root), path)
        ext = [(p, x) for p, x in d.items() if len(p) > len(path) and p[:len(path)] == path]
        if ext:
            ext.sort(key=lambda q: (len(q[0]), str(q[0])))
            for p, x in ext:
                v = self.setin(v, p[len(path):], x)
        return v

    def setin(self, t, path, v):
        if not path:
            return v
        h = path[0]
        if isinstance(h, str):
            return upd(t, (h,), self.setin(fld(t, h), path[1:], v) if len(path) > 1 else v)
        return upd(t, h[1], self.setin(idx(t, *h[1]), path[1:], v) if len(path) > 1 else v)

    def write(self, st, loc, v):
        """returns new state"""
        root, path = loc
        path = self.canon_path(path)
        s = st.copy()
        k = next((i for i, x in enumerate(path) if not isinstance(x, str)), len(path))
        if k < len(path):
            old = self.read0(st, root, path[:k])
            v = self.setin(old, path[k:], v)
            path = path[:k]
        d = dict(s.store.get(root, {}))
        for p in [p for p in d if len(p) > len(path) and p[:len(path)] == path]:
            del d[p]
        # explode records into fields so that later field reads are exact
        if v.op == "rec" and v.a[0] in self.m.rec and self.m.rec[v.a[0]].get("inrepo"):
            for f, x in v.a[1]:
                d[path + (f,)] = x
            d.pop(path, None)
            d[path] = v
        else:
            d[path] = v
        # an ancestor value that is stored whole must not shadow: reads use longest prefix, fine
        s.store[root] = d
        return s

    def tmp(self, st, v):
        self.tmpn += 1
        loc = (("t", self.tmpn), ())
        return self.write(st, loc, v), loc

    def local(self, st, v, fr):
        """a temporary that loops may carry"""
        self.tmpn += 1
        loc = (("v", fr.id, "acc%d" % self.tmpn), ())
        return self.write(st, loc, v), loc

    # ------------------------------------------------------------ entry
    def run(self, fid, this=None, args=None, st=None, facts=(), dyn=None):
        """summary of a function: list of Outcome.  Parameters become syms."""
        f = self.m.fn[fid]
        st = st or St()
        for a, v in facts:
            st = st.assume(a, v)
        thisloc = None
        if f.get("cls") and not f.get("static"):
            thisloc = this or (("o", sym("this")), ())
        binds = []
        for i, p in enumerate(f["params"]):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                if isinstance(a, T):
                    if p["ref"] == "v":
                        binds.append(a)
                    else:
                        st, l = self.tmp(st, a)
                        binds.append(l)
                else:
                    binds.append(a)
                continue
            nm = f"arg{i}"
            if p["ref"] == "v":
                t = sym(nm)
                TYPES[t] = p["t"]
                binds.append(t)
            else:
                binds.append((("o", sym(nm)), ()))
                TYPES[mk("deref", sym(nm))] = p["t"]
        if thisloc is not None and thisloc[1] == ():
            self.dyn[thisloc[0]] = dyn or f["cls"]
        self.thr.append([])
        try:
            res = self.call_fn(fid, thisloc, binds, st, f["line"])
        finally:
            thr = self.thr.pop()
        out = [Outcome("ret", s, (self.read(s, v) if isinstance(v, tuple) else v), None) for s, v in res]
        for o, (s, v) in zip(out, res):
            o.loc = v if isinstance(v, tuple) else None
        for s, ty, line in thr:
            o = Outcome("throw", s, ty, line)
            o.loc = None
            out.append(o)
        return out

    # ------------------------------------------------------------ calls
    def call_fn(self, fid, this, binds, st, line, lam=None):
        """inline a defined function; binds: T for by-value, Loc for refs"""
        f = self.m.fn[fid]
        if self.depth > self.maxdepth or self.stack.count(fid) > 1:
            raise Undecided(f"call depth at {f['q']}")
        self.analysed.add(fid)
        fr = Frame(f, this)
        st = st.copy()
        for p, b in zip(f["params"], binds):
            if isinstance(b, tuple):
                st.env[(fr.id, p["id"])] = b
            else:
                loc = (("v", fr.id, p["id"]), ())
                st.env[(fr.id, p["id"])] = loc
                st = self.write(st, loc, b)
        if lam is not None:
            for vid, lt_ in lam.a[1]:
                st.env[(fr.id, vid)] = (lt_.a[0], lt_.a[1])
            if lam.a[2] is not NULL:
                fr.this = self.deref(lam.a[2])
        self.depth += 1
        self.stack.append(fid)
        try:
            states = [st]
            if f["kind"] in ("ctor", "cctor", "mctor"):
                states = self.ctor_inits(f, fr, states)
            out = []
            for s in states:
                if f.get("body") is None:
                    out.append(("n", s, None))
                else:
                    out += self.exec(f["body"], s, fr)
        finally:
            self.depth -= 1
            self.stack.pop()
        res = []
        for k, s, v in out:
            if k == "r" and v is not None:
                res.append((s, v))
            elif k in ("n", "r"):
                res.append((s, mk("void")))
            else:
                raise Undecided(f"stray {k} in {f['q']}")
        # drop locals of this frame
        cleaned = []
        for s, v in res:
            keep = [r for r in s.store if r[0] == "v" and r[1] == fr.id]
            if keep and not (isinstance(v, tuple) and v[0][0] == "v" and v[0][1] == fr.id):
                s = s.copy()
                for r in keep:
                    if not self.captured(v, r):
                        del s.store[r]
                for k2 in [k2 for k2 in s.env if k2[0] == fr.id]:
                    del s.env[k2]
            cleaned.append((s, v))
        return self.merge_results(cleaned)

    def captured(self, v, root):
        return isinstance(v, T) and contains(v, lambda t: t.op == "addr" and t.a[0] == root)

    def merge_results(self, res):
        """join outcomes with identical store, trace and value (facts intersect)"""
        if len(res) < 2:
            return res
        seen = {}
        out = []
        for s, v in res:
            k = (self.skey(s), v)
            if k in seen:
                i = seen[k]
                s0, _ = out[i]
                out[i] = (s0.with_facts(s0.facts.join(s.facts)), v)
            else:
                seen[k] = len(out)
                out.append((s, v))
        if len(out) > self.MAXSTATES:
            raise Undecided("too many states")
        return out

    def skey(self, s):
        return (frozenset((r, frozenset(d.items())) for r, d in s.store.items()), s.trace)

    def ctor_inits(self, f, fr, states):
        for i in f.get("inits", []):
            nxt = []
            for s in states:
                if i["kind"] == "member":
                    loc = (fr.this[0], fr.this[1] + (i["n"],))
                    nxt += [x for x in self.init_into(loc, i["e"], s, fr)]
                elif i["kind"] == "base":
                    e = i["e"]
                    if e and e.get("k") == "ctor" and self.inlinable(e["f"]):
                        for s2, b in self.eval_args(e["f"], e["a"], s, fr):
                            for s3, _ in self.call_fn(e["f"], fr.this, b, s2, e["l"]):
                                nxt.append(s3)
                    elif e and e.get("k") == "ctor":
                        c = self.m.callee.get(e["f"], {})
                        rec = self.m.rec.get(e["cls"], {})
                        if rec.get("inrepo") and (c.get("kind") in ("cctor", "mctor")):
                            # implicit copy of an in-repo base: field-wise
                            for s2, l in self.lv(e["a"][0], s, fr):
                                for fn, fd, _ in self.m.all_fields(e["cls"]):
                                    s2 = self.write(s2, (fr.this[0], fr.this[1] + (fn,)), self.read(s2, (l[0], l[1] + (fn,))))
                                nxt.append(s2)
                        elif rec.get("inrepo") and e["a"]:
                            # a constructor defined in another part of the repository
                            for s2, vs in self.eval_list(e["a"], s, fr):
                                v = mk("ctor", i["n"], *vs)
                                for fn, fd, _ in self.m.all_fields(e["cls"]):
                                    s2 = self.write(s2, (fr.this[0], fr.this[1] + (fn,)), fld(v, fn))
                                nxt.append(s2)
                        elif rec.get("inrepo"):
                            nxt.append(self.default_fields(e["cls"], fr.this, s))
                        else:
                            bn = "<base:" + i["n"] + ">"
                            if c.get("kind") in ("cctor", "mctor"):
                                for s2, l in self.lv(e["a"][0], s, fr):
                                    nxt.append(self.write(s2, (fr.this[0], fr.this[1] + (bn,)), self.read(s2, (l[0], l[1] + (bn,)))))
                            else:
                                for s2, vs in self.eval_list(e["a"], s, fr):
                                    nxt.append(self.write(s2, (fr.this[0], fr.this[1] + (bn,)), mk("ctor", i["n"], *vs)))
                    else:
                        nxt.append(s)
                else:  # delegating
                    e = i["e"]
                    if self.inlinable(e["f"]):
                        for s2, b in self.eval_args(e["f"], e["a"], s, fr):
                            for s3, _ in self.call_fn(e["f"], fr.this, b, s2, e["l"]):
                                nxt.append(s3)
                    else:
                        nxt.append(s)
            states = nxt
        # scalar members never mentioned: indeterminate
        r = self.m.rec.get(f["cls"])
        if r and f["kind"] == "ctor" and not any(i["kind"] == "deleg" for i in f.get("inits", [])):
            done = {i["n"] for i in f.get("inits", []) if i["kind"] == "member"}
            for fd in r["fields"]:
                if fd["n"] not in done and fd["n"]:
                    states = [self.write(s, (fr.this[0], fr.this[1] + (fd["n"],)), self.uninit(fd["t"], fd["n"])) for s in states]
        return states

    def uninit(self, t, name):
        d = dims(t)
        if d and d[0] > 0 and d[1] > 0 and d[0] * d[1] <= 64:
            return mk("mat", d[0], d[1], tuple(mk("uninit", name, i) for i in range(d[0] * d[1])))
        return mk("uninit", name)

    def default_fields(self, cls, loc, s):
        """default-initialise an in-repo class without user default ctor"""
        r = self.m.rec.get(cls)
        for b in r["bases"]:
            if self.m.rec.get(b["n"], {}).get("inrepo"):
                s = self.default_fields(b["n"], loc, s)
        for fd in r["fields"]:
            l = (loc[0], loc[1] + (fd["n"],))
            if fd.get("init") is not None:
                fr = Frame(None, loc)
                for s2, v in self.eval(fd["init"], s, fr)[:1]:
                    s = self.write(s2, l, v)
            elif fd["tk"] in ("c",):
                s = self.write(s, l, self.ext_default(fd["rec"] if fd.get("rec") else fd["t"]))
            else:
                s = self.write(s, l, mk("uninit", fd["n"]))
        return s

    def ext_default(self, cls):
        d = dims(cls)
        if d:
            if d[0] <= 0 or d[1] <= 0:
                return EMPTYMAT if d[0] <= 0 and d[1] <= 0 else EMPTYVEC      # dynamic size: no element
            return self.uninit(cls, "Eigen")
        sh = short(cls)
        if sh in SMARTPTR:
            return NULL
        if sh in ("vector", "map", "unordered_map", "set", "unordered_set", "list", "deque", "basic_string", "multimap"):
            return mk("empty")
        return mk("ctor", cls)

    def init_into(self, loc, e, s, fr):
        """initialise object at loc from expression; returns states"""
        if e is None:
            return [s]
        if e["k"] == "ctor":
            rec = self.m.rec.get(e["cls"], {})
            if self.inlinable(e["f"]):
                out = []
                for s2, b in self.eval_args(e["f"], e["a"], s, fr):
                    for s3, _ in self.call_fn(e["f"], loc, b, s2, e["l"]):
                        out.append(s3)
                return out
            c = self.m.callee.get(e["f"], {})
            if rec.get("inrepo") and c.get("kind") in ("ctor",) and not e["a"] and not c.get("deleted") and not self.opaque(c):
                return [self.default_fields(e["cls"], loc, s)]
        return [self.write(s2, loc, v) for s2, v in self.eval(e, s, fr)]

    def inlinable(self, fid):
        return fid in self.m.fn and not self.opaque(self.m.callee.get(fid) or self.m.fn[fid]) and self.m.fn[fid].get("body") is not None and not self.m.fn[fid].get("defaulted")

    def eval_args(self, fid, args, st, fr):
        """evaluate arguments for an inlined call -> [(st, binds)]"""
        c = self.m.callee.get(fid) or self.m.fn[fid]
        ps = c["params"]
        res = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            ref = ps[i]["ref"] if i < len(ps) else "v"
            for s, b in res:
                if ref == "v":
                    for s2, v in self.eval(a, s, fr):
                        nxt.append((s2, b + [v]))
                else:
                    for s2, l in self.lv(a, s, fr):
                        nxt.append((s2, b + [l]))
            res = nxt
        return res

    def eval_list(self, es, st, fr):
        res = [(st, [])]
        for e in es:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.eval(e, s, fr)]
        return res

    # ------------------------------------------------------------ lvalues
    def lv(self, e, st, fr):
        k = e["k"]
        if k == "var":
            if "g" in e:
                return [(st, (("g", e["g"] if not e.get("slocal") else (fr.fn["q"] + "::" + e["n"])), ()))]
            b = st.env.get((fr.id, e["id"]))
            if b is None:
                raise Undecided(f"unbound variable {e.get('n')} in {fr.fn['q'] if fr.fn else '?'}")
            return [(st, b)]
        if k == "mem":
            if e["arrow"]:
                out = []
                for s, p in self.eval(e["b"], st, fr):
                    l = self.deref(p)
                    out.append((s, (l[0], l[1] + (e["n"],))))
                return out
            return [(s, (l[0], l[1] + (e["n"],))) for s, l in self.lv(e["b"], st, fr)]
        if k == "un" and e["op"] == "*":
            return [(s, self.deref(p)) for s, p in self.eval(e["e"], st, fr)]
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for s, l in self.lv(e["e"], st, fr):
                out.append((self.incdec(s, l, e["op"]), l))
            return out
        if k == "asg":
            return self.assign(e, st, fr)
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st, fr):
                out += self.lv(e["a"] if b else e["b"], s, fr)
            return out
        if k == "cast" and e.get("ck") in ("DerivedToBase", "BaseToDerived", "Dynamic"):
            if e["tk"] == "p":
                pass
            else:
                return self.lv(e["e"], st, fr)
        if k == "idx":
            out = []
            for s, b in self.eval(e["b"], st, fr):
                for s2, i in self.eval(e["i"], s, fr):
                    if b.op == "addr":
                        out.append((s2, (b.a[0], b.a[1] + (("i", (i,)),))))
                    else:
                        out.append((s2, (("o", b), (("i", (i,)),))))
            return out
        if k == "bin" and e["op"] == ",":
            return [(s2, l) for s, _ in self.eval(e["lhs"], st, fr) for s2, l in self.lv(e["rhs"], s, fr)]
        if k in ("call", "mcall"):
            r = self.do_call(e, st, fr)
            out = []
            for s, v in r:
                if isinstance(v, tuple):
                    out.append((s, v))
                elif v.op == "call" and (self.m.callee.get(e.get("f")) or {}).get("rref", "v") != "v":
                    # a reference to the same thing is the same location
                    loc = (("t", "r%d" % v.id), ())
                    out.append((self.write(s, loc, v), loc))
                else:
                    out.append(self.tmp(s, v))
            return out
        if k == "ctor" and self.inlinable(e["f"]):
            self.tmpn += 1
            loc = (("t", self.tmpn), ())
            return [(s, loc) for s in self.init_into(loc, e, st, fr)]
        # rvalue: materialise
        return [self.tmp(s, v) for s, v in self.eval(e, st, fr)]

    # ------------------------------------------------------------ values
    def eval(self, e, st, fr):
        k = e["k"]
        if k == "int":
            return [(st, num(int(e["v"])))]
        if k == "float":
            v = e["v"]
            return [(st, num(float(v)) if v is not None else sym("inf"))]
        if k == "str":
            return [(st, mk("str", e["v"]))]
        if k == "null":
            return [(st, NULL)]
        if k == "zero":
            if e["tk"] == "p":
                return [(st, NULL)]
            if e["tk"] == "c":
                return [(st, mk("zero", e["t"]))]
            return [(st, num(0))]
        if k == "this":
            if fr.this is None:
                raise Undecided("this outside method")
            return [(st, self.locterm(fr.this))]
        if k == "var":
            if e.get("ginit") is not None:
                return self.eval(e["ginit"], st, fr)
            l = self.lv(e, st, fr)[0][1]
            if e["tk"] == "a":
                return [(st, mk("addr", l[0], l[1]))]
            v = self.read(st, l)
            if v.op in ("fld", "deref", "glob"):
                TYPES[v] = e["t"]
            return [(st, v)]
        if k == "mem":
            out = []
            for s, l in self.lv(e, st, fr):
                if e["tk"] == "a":
                    out.append((s, mk("addr", l[0], l[1])))
                    continue
                v = self.read(s, l)
                if v.op in ("fld", "deref", "idx"):
                    TYPES[v] = e["t"]
                out.append((s, v))
            return out
        if k == "idx":
            return [(s, self.read(s, l)) for s, l in self.lv(e, st, fr)]
        if k == "un":
            return self.unary(e, st, fr)
        if k == "bin":
            return self.binary(e, st, fr)
        if k == "asg":
            return [(s, self.read(s, l)) for s, l in self.assign(e, st, fr)]
        if k == "cond":
            # value-level ite when both arms are effect free
            self.thr.append([])
            c = self.eval_boolval(e["c"], st, fr)
            if c is not None:
                s0, cv = c
                if not isnum(cv):
                    kn = s0.facts.known(cv)
                    if kn is None:
                        a = self.try_pure(e["a"], s0, fr)
                        b = self.try_pure(e["b"], s0, fr)
                        if a is not None and b is not None and not self.thr[-1]:
                            self.thr.pop()
                            return [(s0, ite(cv, a, b))]
            self.thr.pop()
            out = []
            for s, b in self.cond(e["c"], st, fr):
                out += self.eval(e["a"] if b else e["b"], s, fr)
            return out
        if k == "cast":
            return self.cast(e, st, fr)
        if k in ("call", "mcall"):
            out = []
            for s, v in self.do_call(e, st, fr):
                if isinstance(v, tuple):
                    v = self.read(s, v)
                    if v.op in ("fld", "deref", "idx"):
                        TYPES[v] = e["t"]
                out.append((s, v))
            return out
        if k == "ctor":
            return self.construct(e, st, fr)
        if k == "ilist":
            rec = self.m.rec.get(e.get("cls", ""), {})
            out = []
            for s, vs in self.eval_list(e["a"], st, fr):
                if rec.get("inrepo") and len(rec["fields"]) == len(vs):
                    out.append((s, mk("rec", e["cls"], tuple(sorted((f["n"], v) for f, v in zip(rec["fields"], vs))))))
                elif len(vs) == 1 and e["tk"] not in ("c", "a"):
                    out.append((s, vs[0]))
                else:
                    out.append((s, mk("ilist", *vs)))
            return out
        if k == "new":
            return self.new(e, st, fr)
        if k == "delete":
            out = []
            for s, v in self.eval(e["e"], st, fr):
                out.append((s.ev(Ev("delete", v, v, (), e["l"], "delete")), mk("void")))
            return out
        if k == "throw":
            ty = e.get("et") or "rethrow"
            self.thr[-1].append((st, ty, e["l"]))
            return []
        if k == "lam":
            caps = []
            s = st
            for c in e["caps"]:
                if "id" not in c:
                    continue
                b = st.env.get((fr.id, c["id"]))
                if b is None:
                    continue
                if c["by"] == "ref":
                    caps.append((c["id"], mk("addr", b[0], b[1])))
                else:
                    s, l = self.tmp(s, self.read(s, b))
                    caps.append((c["id"], mk("addr", l[0], l[1])))
            th = self.locterm(fr.this) if fr.this is not None else NULL
            return [(s, mk("lam", e["f"], tuple(caps), th))]
        if k in ("fref", "ref"):
            return [(st, mk("fref", e.get("f") or e.get("n")))]
        if k == "sizeof":
            return [(st, sym("sizeof"))]
        if k == "nop":
            return [(st, mk("void"))]
        if k == "unk":
            raise Undecided("expression " + e.get("cls", "?"))
        if k in ("memptr", "mfref"):
            return [(st, mk("memptr", e.get("cls", ""), e.get("n", "")))]
        raise Undecided("expr kind " + k)

    def try_pure(self, e, st, fr):
        r = self.eval(e, st, fr)
        if len(r) == 1 and r[0][0].trace == st.trace and self.same_store(r[0][0], st):
            return r[0][1]
        return None

    def same_store(self, a, b):
        if a.store is b.store:
            return True
        for r, d in a.store.items():
            if r[0] == "t":
                continue
            if b.store.get(r) != d:
                return False
        return True

    def eval_boolval(self, e, st, fr):
        """boolean value without splitting, or None"""
        r = self.eval(e, st, fr)
        if len(r) == 1 and r[0][0].trace == st.trace and self.same_store(r[0][0], st):
            return r[0][0], truth(r[0][1], e.get("tk") == "p")
        return None

    def unary(self, e, st, fr):
        op = e["op"]
        if op == "&":
            return [(s, self.locterm(l)) for s, l in self.lv(e["e"], st, fr)]
        if op == "*":
            return [(s, self.read(s, l)) for s, l in self.lv(e, st, fr)]
        if op == "!":
            return [(s, lnot(truth(v, e["e"].get("tk") == "p"))) for s, v in self.eval(e["e"], st, fr)]
        if op == "-":
            return [(s, neg(v)) for s, v in self.eval(e["e"], st, fr)]
        if op == "~":
            return [(s, call("~", v)) for s, v in self.eval(e["e"], st, fr)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st, fr):
                old = self.read(s, l)
                s2 = self.incdec(s, l, op)
                out.append((s2, old if e.get("post") else self.read(s2, l)))
            return out
        raise Undecided("unary " + op)

    def incdec(self, st, l, op):
        v = self.read(st, l)
        d = num(1 if op == "++" else -1)
        if v.op == "iter":
            nv = mk("iter", v.a[0], add(v.a[1], d))
        else:
            nv = add(v, d)
        return self.write(st, l, nv)

    def arith(self, op, a, b, tk, atk="", btk=""):
        if op == "+":
            if a.op == "iter":
                return mk("iter", a.a[0], add(a.a[1], b))
            return add(a, b)
        if op == "-":
            if a.op == "iter" and b.op == "iter":
                return sub(a.a[1], b.a[1])
            if a.op == "iter":
                return mk("iter", a.a[0], sub(a.a[1], b))
            if tk == "u" and not (isnum(a) and isnum(b)):
                if isnum(b) and b.a[0] == 0:
                    return a
                return mk("usub", a, b)
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b, integer=tk in ("i", "u"))
        if op == "%":
            if isnum(a) and isnum(b) and b.a[0]:
                return num(a.a[0] % b.a[0])
            return mk("mod", a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if tk == "b" and op == "&":
                return land(truth(a), truth(b))
            if tk == "b" and op == "|":
                return lor(truth(a), truth(b))
            return call(op, a, b)
        raise Undecided("operator " + op)

    def compare(self, op, a, b):
        if a.op == "iter" and b.op == "iter":
            if a.a[0] is b.a[0]:
                for x, y in ((a, b), (b, a)):
                    if x.a[1].op in ("find", "findv"):
                        c = x.a[1].a[0]
                        if y.a[1] is call("size", c) or y.a[1].op == "call":
                            h = mk("has", c, x.a[1].a[1])
                            return h if op == "!=" else lnot(h)
                a, b = a.a[1], b.a[1]
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        r = self.hasfold(a, b)
        if r is not None:
            return r if op == "==" else lnot(r)
        r = eq(a, b)
        return r if op == "==" else lnot(r)

    def hasfold(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.a[0] == "count" and len(x.a) == 3 and isnum(y):
                h = mk("has", x.a[1], x.a[2])
                if y.a[0] == 0:
                    return lnot(h)
                if y.a[0] == 1:
                    return h
            if isbool(x) and isnum(y) and y.a[0] in (0, 1) and not isnum(x):
                return x if y.a[0] == 1 else lnot(x)
        return None

    def binary(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            # pure value if possible
            self.thr.append([])
            r = None
            a = self.eval_boolval(e["lhs"], st, fr)
            if a is not None:
                s0, av = a
                kn = s0.facts.known(av)
                if kn is not None and (kn == (op == "||")):
                    r = [(s0, TRUE if kn else FALSE)]
                else:
                    b = self.eval_boolval(e["rhs"], s0, fr)
                    if b is not None and not self.thr[-1]:
                        r = [(b[0], (land if op == "&&" else lor)(av, b[1]))]
            t = self.thr.pop()
            if r is not None and not t:
                return r
            return [(s, TRUE if b else FALSE) for s, b in self.cond(e, st, fr)]
        if op == ",":
            return [x for s, _ in self.eval(e["lhs"], st, fr) for x in self.eval(e["rhs"], s, fr)]
        out = []
        for s, a in self.eval(e["lhs"], st, fr):
            for s2, b in self.eval(e["rhs"], s, fr):
                ltk = e["lhs"].get("tk")
                out.append((s2, self.arith(op, a, b, ltk if op in ("/", "-", "%") and e["tk"] in ("i", "u", "f") and False else e["tk"])))
        return out

    def assign(self, e, st, fr):
        op = e["op"]
        out = []
        if op == "=":
            for s, v in self.eval(e["rhs"], st, fr):
                for s2, l in self.lv(e["lhs"], s, fr):
                    out.append((self.write(s2, l, v), l))
            return out
        for s, v in self.eval(e["rhs"], st, fr):
            for s2, l in self.lv(e["lhs"], s, fr):
                old = self.read(s2, l)
                tk = e["lhs"].get("tk", "")
                if tk in ("i", "u") and e["rhs"].get("tk") == "f":
                    nv = self.toint(self.arith(op[:-1], old, v, "f"))
                else:
                    nv = self.arith(op[:-1], old, v, tk)
                out.append((self.write(s2, l, nv), l))
        return out

    def toint(self, v):
        if isnum(v):
            q = v.a[0]
            return num(int(q))
        if v.op in ("toint", "iv") or (v.op == "call" and v.a[0] in ("size",)):
            return v
        return mk("toint", v)

    def cast(self, e, st, fr):
        ck = e["ck"]
        out = []
        for s, v in self.eval(e["e"], st, fr):
            if ck == "FloatingToIntegral":
                v = self.toint(v)
            elif ck == "FloatingCast" and e["t"].replace("const ", "") == "float" and not isnum(v) and v.op != "f32":
                v = mk("f32", v)
            elif ck in ("IntegralToBoolean", "FloatingToBoolean"):
                v = truth(v)
            elif ck == "PointerToBoolean":
                v = truth(v, True)
            elif ck == "IntegralCast":
                stk = e["e"].get("tk")
                if e["tk"] == "u" and stk in ("i", "e") and not (isnum(v) and v.a[0] >= 0):
                    if not self.nonneg(v):
                        v = mk("ucast", v) if not isnum(v) else num(v.a[0] + 2 ** 64)
                elif e["tk"] == "i" and v.op == "ucast":
                    v = v.a[0]
                elif e["tk"] == "i" and v.op == "usub":
                    v = sub(v.a[0], v.a[1])
            elif ck == "Dynamic":
                v = mk("dcast", e["t"], v)
            out.append((s, v))
        return out

    def nonneg(self, v):
        if v.op == "iv":
            return isnum(v.a[1]) and v.a[1].a[0] >= 0
        if v.op == "call" and v.a[0] in ("size", "rows", "cols"):
            return True
        if v.op in ("mul", "add"):
            return all(self.nonneg(x) or (isnum(x) and x.a[0] >= 0) for x in v.a)
        return False

    def new(self, e, st, fr):
        init = e.get("init")
        self.tmpn += 1
        if init is None:
            return [(st, mk("new", e["at"], "l%d" % e["l"]))]
        if init["k"] == "ctor" and self.inlinable(init["f"]):
            out = []
            for s, vs in self.eval_args(init["f"], init["a"], st, fr):
                vals = tuple(self.read(s, v) if isinstance(v, tuple) else v for v in vs)
                p = mk("new", e["at"], vals, "n%d" % self.tmpn)
                for s3, _ in self.call_fn(init["f"], (("o", p), ()), vs, s, e["l"]):
                    out.append((s3.ev(Ev("new", p, p, vals, e["l"], e["at"])), p))
            return out
        out = []
        es = init["a"] if init["k"] == "ctor" else [init]
        for s, vs in self.eval_list(es, st, fr):
            p = mk("new", e["at"], tuple(vs), "n%d" % self.tmpn)
            out.append((s.ev(Ev("new", p, p, tuple(vs), e["l"], e["at"])), p))
        return out

    # ------------------------------------------------------------ construct
    def construct(self, e, st, fr):
        cls = e["cls"]
        c = self.m.callee.get(e["f"], {})
        if self.inlinable(e["f"]):
            self.tmpn += 1
            loc = (("t", self.tmpn), ())
            out = []
            for s in self.init_into(loc, e, st, fr):
                v = self.read(s, loc)
                fs = self.m.all_fields(cls)
                if fs:
                    v = mk("rec", cls, tuple(sorted((n, self.read(s, (loc[0], loc[1] + (n,)))) for n, _, _ in fs)))
                out.append((s, v))
            return out
        sh = short(cls)
        rec = self.m.rec.get(cls, {})
        kind = c.get("kind")
        if kind in ("cctor", "mctor") and len(e["a"]) >= 1:
            out = []
            for s, v in self.eval(e["a"][0], st, fr):
                if rec.get("inrepo") and not self.opaque(c):
                    fs = self.m.all_fields(cls)
                    if fs and v.op != "rec":
                        v = mk("rec", cls, tuple(sorted((n, fld(v, n)) for n, _, _ in fs)))
                out.append((s, v))
            return out
        if rec.get("inrepo") and not e["a"] and not self.opaque(c):
            self.tmpn += 1
            loc = (("t", self.tmpn), ())
            s = self.default_fields(cls, loc, st)
            fs = self.m.all_fields(cls)
            return [(s, mk("rec", cls, tuple(sorted((n, self.read(s, (loc[0], (n,)))) for n, _, _ in fs))))]
        if any(x in cls for x in STREAMY):
            return [(st, mk("stream"))]
        out = []
        for s, vs in self.eval_list(e["a"], st, fr):
            if not vs:
                out.append((s, self.ext_default(cls)))
                continue
            d = dims(cls)
            if d is not None or sh in ("Array", "ArrayWrapper", "MatrixWrapper", "Block", "Map", "Transpose", "CwiseBinaryOp"):
                a0 = e["a"][0]
                if len(vs) == 1 and a0.get("tk") == "c":
                    v = vs[0]
                    out.append((s, v))
                    continue
                if d is not None and d[0] > 0 and d[1] > 0 and len(vs) == d[0] * d[1] and (len(vs) > 1):
                    out.append((s, mk("mat", d[0], d[1], tuple(vs))))
                    continue
                if d is not None and d[0] > 0 and d[1] > 0 and (all(isnum(x) for x in vs) or
                                                                (len(vs) <= 2 and d != (1, 1) and all(y.get("tk") in ("i", "u") for y in e["a"]))):
                    out.append((s, self.uninit(cls, "Eigen")))
                    continue
                if d is not None and len(vs) == 1 and d == (1, 1):
                    out.append((s, mk("mat", 1, 1, (vs[0],))))
                    continue
                if d is not None and len(vs) <= 2 and all(a.get("tk") in ("i", "u") for a in e["a"]):
                    out.append((s, mk("uninit", "Eigen", *vs)))
                    continue
            if sh in SMARTPTR or "iterator" in sh or sh in ("function", "basic_string", "reference_wrapper"):
                if "iterator" in sh or sh in SMARTPTR or len(vs) == 1 or sh == "basic_string":
                    out.append((s, vs[0]))
                    continue
            if sh == "pair" and len(vs) == 2:
                out.append((s, mk("rec", "pair", (("first", vs[0]), ("second", vs[1])))))
                continue
            if sh == "tuple":
                out.append((s, mk("rec", "tuple", tuple((f"get<{i}>", v) for i, v in enumerate(vs)))))
                continue
            if sh == "pair" and len(vs) == 1:
                out.append((s, vs[0]))
                continue
            if sh == "vector":
                if len(vs) == 1 and (e["a"][0].get("tk") == "c"):
                    out.append((s, vs[0]))
                    continue
                if vs and isinstance(vs[0], T) and vs[0].op == "iter" and len(vs) >= 2 and vs[1].op == "iter" and \
                   vs[0].a[0] is vs[1].a[0] and vs[0].a[1] is FALSE:
                    l = vs[0].a[0]
                    out.append((s, self.read(s, (l.a[0], l.a[1]))))
                    continue
            ps = c.get("params", [])
            if self.may_throw and self.may_throw(c):
                self.thr[-1].append((s, "external", e["l"]))
            v = mk("ctor", cls, *vs)
            # constructor of an opaque class: record as an effect so that rules can see it
            if rec.get("inrepo"):
                s = s.ev(Ev("construct", v, v, tuple(vs), e["l"], cls))
            out.append((s, v))
        return out

    # ------------------------------------------------------------ calls
    def do_call(self, e, st, fr):
        fid = e.get("f")
        if fid is None:
            return self.call_indirect(e, st, fr)
        c = self.m.callee.get(fid)
        if c is None:
            raise Undecided("unknown callee " + fid)
        if c.get("noreturn"):
            return []
        if e["k"] == "mcall":
            return self.mcall(e, c, st, fr)
        return self.fcall(e, c, st, fr)

    def call_indirect(self, e, st, fr):
        out = []
        for s, fv in self.eval(e["fe"], st, fr):
            for s2, vs in self.eval_list(e["a"], s, fr):
                if fv.op == "fref" and self.inlinable(fv.a[0]):
                    out += self.call_fn(fv.a[0], None, vs, s2, e["l"])
                elif fv.op == "lam":
                    out += self.call_lam(fv, vs, s2, e["l"])
                else:
                    out.append((s2.ev(Ev("indirect", fv, fv, tuple(vs), e["l"], "indirect")), mk("ret", "indirect", fv, *vs)))
        return out

    def call_lam(self, lam, binds, st, line):
        fid = lam.a[0]
        if fid not in self.m.fn:
            raise Undecided("lambda body missing")
        ps = self.m.fn[fid]["params"]
        b2 = []
        for p, b in zip(ps, binds):
            if p["ref"] == "v" and isinstance(b, tuple):
                b = self.read(st, b)
            elif p["ref"] != "v" and isinstance(b, T):
                st, b = self.tmp(st, b)
            b2.append(b)
        return self.call_fn(fid, None, b2, st, line, lam=lam)

    def fcall(self, e, c, st, fr):
        n = c["n"]
        args = e["a"]
        q = c["q"]
        if self.inlinable(c["id"]):
            out = []
            for s, b in self.eval_args(c["id"], args, st, fr):
                out += self.call_fn(c["id"], None, b, s, e["l"])
            return out
        # -------- streams
        if n in ("operator<<", "operator>>") and args and any(x in c["params"][0]["t"] for x in STREAMY):
            return [(s, l) for s, l in self.lv(args[0], st, fr)] if n == "operator<<" else [(s, l) for s, l in self.lv(args[0], st, fr)]
        if n in ("endl", "flush"):
            return [(st, mk("void"))]
        # -------- identity-like
        if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "boost::ref", "std::addressof"):
            if n == "addressof":
                return [(s, self.locterm(l)) for s, l in self.lv(args[0], st, fr)]
            return [(s, l) for s, l in self.lv(args[0], st, fr)]
        if q == "std::get" and c.get("targs"):
            t = str(c["targs"][0]).rstrip("UL")
            return [(s, (l[0], l[1] + (f"get<{t}>",))) for s, l in self.lv(args[0], st, fr)]
        if q in ("std::swap", "std::iter_swap", "boost::swap") and len(args) == 2:
            out = []
            for s, a in (self.lv(args[0], st, fr) if n == "swap" else [(x, self.deref(y)) for x, y in self.eval(args[0], st, fr)]):
                for s2, b in (self.lv(args[1], s, fr) if n == "swap" else [(x, self.deref(y)) for x, y in self.eval(args[1], s, fr)]):
                    va, vb = self.read(s2, a), self.read(s2, b)
                    s3 = self.write(self.write(s2, a, vb), b, va)
                    s3 = s3.ev(Ev("swap", self.locterm(a), va, (self.locterm(b), vb), e["l"], "std::swap", facts=s2.facts))
                    out.append((s3, mk("void")))
            return out
        if q in ("std::make_pair",):
            return [(s, mk("rec", "pair", (("first", v[0]), ("second", v[1])))) for s, v in self.eval_list(args, st, fr)]
        if q in ("std::make_tuple", "std::tie", "std::forward_as_tuple"):
            return [(s, mk("rec", "tuple", tuple((f"get<{i}>", x) for i, x in enumerate(v)))) for s, v in self.eval_list(args, st, fr)]
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend"):
            return [(s, self.iter_of(s, l, n.lstrip("c"))) for s, l in self.lv(args[0], st, fr)]
        if q in ("std::next", "std::prev"):
            out = []
            for s, v in self.eval_list(args, st, fr):
                d = v[1] if len(v) > 1 else num(1)
                out.append((s, self.arith("+" if n == "next" else "-", v[0], d, "")))
            return out
        if q == "std::advance":
            out = []
            for s, l in self.lv(args[0], st, fr):
                for s2, d in self.eval(args[1], s, fr):
                    out.append((self.write(s2, l, self.arith("+", self.read(s2, l), d, "")), mk("void")))
            return out
        if q == "std::distance":
            return [(s, self.arith("-", v[1], v[0], "")) for s, v in self.eval_list(args, st, fr)]
        if q in ("std::find", "std::count"):
            out = []
            for s, v in self.eval_list(args, st, fr):
                if v[0].op == "iter" and v[1].op == "iter" and v[0].a[0] is v[1].a[0] and v[0].a[1] is FALSE:
                    l = v[0].a[0]
                    cv = self.read(s, (l.a[0], l.a[1]))
                    if n == "find":
                        out.append((s, mk("iter", l, mk("findv", cv, v[2]))))
                    else:
                        out.append((s, call("count", cv, v[2])))
                else:
                    out.append((s, call(n, *v)))
            return out
        if q in ("std::for_each", "std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find_if_not", "std::count_if",
                 "std::transform", "std::generate", "std::fill", "std::copy", "std::accumulate", "std::remove_if"):
            r = self.algorithm(n, e, c, st, fr)
            if r is not None:
                return r
        if q in ("boost::make_shared", "std::make_shared", "boost::allocate_shared", "std::make_unique"):
            self.tmpn += 1
            out = []
            ty = (c.get("targs") or ["?"])[0]
            for s, v in self.eval_list(args, st, fr):
                p = mk("new", ty, tuple(v), "n%d" % self.tmpn)
                out.append((s.ev(Ev("new", p, p, tuple(v), e["l"], ty)), p))
            return out
        if n in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
            return [(s, v[0] if n != "dynamic_pointer_cast" else mk("dcast", "", v[0])) for s, v in self.eval_list(args, st, fr)]
        op = e.get("op")
        if op and len(args) in (1, 2):
            return self.operator(op, e, c, None, args, st, fr)
        if n in ("sqrt", "log", "exp", "pow", "fabs", "abs", "floor", "ceil", "sin", "cos", "tan", "atan2", "atan", "log2",
                 "max", "min", "erf", "isnan", "isfinite", "round", "lround", "llround", "fmin", "fmax", "fma"):
            return [(s, self.math(n, v)) for s, v in self.eval_list(args, st, fr)]
        # -------- static members of Eigen types
        if c.get("static") and "Eigen" in (c.get("cls") or ""):
            d = dims(e["t"]) or dims(c.get("ret", "")) or dims(c["cls"])
            if n in ("Zero", "Ones", "Constant", "Identity"):
                dd = dims_in(c.get("cls", "")) or d
                out = []
                for s, v in self.eval_list(args, st, fr):
                    out.append((s, self.eig_const(n, dd, v)))
                return out
        return self.generic_call(e, c, None, None, args, st, fr)

    def eig_const(self, n, d, v):
        if d and d[0] > 0 and d[1] > 0:
            r, cc = d
            if n == "Identity":
                el = tuple(num(1 if i == j else 0) for i in range(r) for j in range(cc))
            else:
                x = num(0) if n == "Zero" else num(1) if n == "Ones" else v[-1]
                el = (x,) * (r * cc)
            return mk("mat", r, cc, el)
        if n in ("Zero", "Ones"):
            return mk("fill", num(0 if n == "Zero" else 1), *v)
        if n == "Constant":
            return mk("fill", v[-1], *v[:-1])
        return call(n, *v)

    def math(self, n, v):
        if n in ("fabs", "abs"):
            if isnum(v[0]):
                return num(abs(v[0].a[0]))
            return call("abs", v[0])
        if n == "pow":
            if isnum(v[1]):
                p = v[1].a[0]
                if p.denominator == 1 and 1 <= p <= 4:
                    return mul(*([v[0]] * int(p)))
                if p == Fraction(1, 2):
                    return call("sqrt", v[0])
                if p == -1:
                    return div(num(1), v[0])
            return call("pow", *v)
        if n in ("lround", "llround"):
            n = "round"
        if n in ("floor", "ceil", "round") and isnum(v[0]):
            import math
            return num({"floor": math.floor, "ceil": math.ceil, "round": half_away}[n](v[0].a[0]))
        if n in ("floor", "ceil") and v[0].op in ("toint", "iv"):
            return v[0]
        if n in ("max", "min", "fmax", "fmin"):
            if len(v) == 2:
                a, b = v
                return ite(lt(a, b), b, a) if n.endswith("max") else ite(lt(b, a), b, a)
        return call(n, *v)

    def iter_of(self, s, l, which):
        lt_ = mk("addr", l[0], l[1])
        if which in ("begin", "cbegin"):
            return mk("iter", lt_, num(0))
        return mk("iter", lt_, self.size(self.read(s, l)))

    def size(self, cv):
        if cv.op == "empty":
            return num(0)
        if cv.op == "mat":
            return num(cv.a[0] * cv.a[1])
        if cv.op == "upd" and not isinstance(cv.a[1][0], str):
            return self.size(cv.a[0])
        if cv.op == "phi" and len(cv.a) == 4:
            return self.size(cv.a[2])
        if cv.op in ("setrange",):
            return self.size(cv.a[1])
        t = TYPES.get(cv)
        if t:
            d = dims(t)
            if d and d[0] > 0 and d[1] > 0:
                return num(d[0] * d[1])
        return call("size", cv)

    def operator(self, op, e, c, objs, args, st, fr):
        """non-inlined operator; args are expression nodes (object first)"""
        t0 = args[0].get("t", "")
        sh0 = short(t0.replace("const ", ""))
        if op == ",":
            pass
        if len(args) == 1:
            if op == "*" and (sh0 in SMARTPTR or "iterator" in sh0 or "Iterator" in sh0):
                return [(s, self.deref(v)) for s, v in self.eval(args[0], st, fr)]
            if op == "->":
                return [(s, v) for s, v in self.eval(args[0], st, fr)]
            if op == "-":
                return [(s, neg(v)) for s, v in self.eval(args[0], st, fr)]
            if op == "!":
                return [(s, lnot(truth(v, sh0 in SMARTPTR))) for s, v in self.eval(args[0], st, fr)]
            if op in ("++", "--"):
                out = []
                for s, l in self.lv(args[0], st, fr):
                    out.append((self.incdec(s, l, op), l))
                return out
        if op in ("++", "--"):  # postfix has dummy int
            out = []
            for s, l in self.lv(args[0], st, fr):
                old = self.read(s, l)
                out.append((self.incdec(s, l, op), old))
            return out
        if op in ("[]", "()") and c.get("inrepo") is False:
            out = []
            iscallable = sh0 in ("function",) or "lambda" in t0
            if "lambda" in t0 or c["id"].startswith("lambda:"):
                for s, f in self.eval(args[0], st, fr):
                    for s2, vs in self.eval_lvs(args[1:], s, fr):
                        out += self.call_lam(f, vs, s2, e["l"])
                return out
            if not iscallable:
                for s, l in self.lv(args[0], st, fr):
                    for s2, vs in self.eval_list(args[1:], s, fr):
                        s2 = self.acc(s2, l, vs, False, e["l"])
                        out.append((s2, (l[0], l[1] + (("i", tuple(vs)),))))
                return out
        if op == "()" and c["id"].startswith("lambda:"):
            out = []
            for s, f in self.eval(args[0], st, fr):
                for s2, vs in self.eval_lvs(args[1:], s, fr):
                    out += self.call_lam(f, vs, s2, e["l"])
            return out
        eigen = iseig(t0) or (len(args) > 1 and iseig(args[1].get("t", "")))
        itlike = "iterator" in sh0 or "Iterator" in sh0
        if op == "=":
            out = []
            for s, v in self.eval(args[1], st, fr):
                for s2, l in self.lv(args[0], s, fr):
                    rec = self.m.rec.get(c.get("cls", ""), {})
                    if rec.get("inrepo") and c.get("kind") in ("cassign", "massign"):
                        for n, _, _ in self.m.all_fields(c["cls"]):
                            s2 = self.write(s2, (l[0], l[1] + (n,)), fld(v, n))
                        out.append((s2, l))
                        continue
                    if "DesignVariable" in (c.get("cls") or "") and c.get("kind") == "cassign" and not c.get("inrepo"):
                        bn = "<base:" + c["cls"] + ">"
                        for s3, l2 in self.lv(args[1], s2, fr):
                            s2 = self.write(s3, (l[0], l[1] + (bn,)), self.read(s3, (l2[0], l2[1] + (bn,))))
                        out.append((s2, l))
                        continue
                    if args[1].get("tk") in ("f", "i", "u") and "Eigen" in t0 and "Scalar" not in t0:
                        pass
                    out.append((self.write(s2, l, v), l))
            return out
        if op in ("+=", "-=", "*=", "/=") and (eigen or itlike or "basic_string" in t0):
            out = []
            for s, v in self.eval(args[1], st, fr):
                for s2, l in self.lv(args[0], s, fr):
                    old = self.read(s2, l)
                    out.append((self.write(s2, l, self.eig_bin(op[0], old, v, args)), l))
            return out
        if op in ("<<", ",") and eigen:
            return self.comma(op, e, c, args, st, fr)
        if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||") and len(args) == 2:
            ptrish = sh0 in SMARTPTR
            ext_ok = eigen or itlike or ptrish or sh0 in ("basic_string", "pair", "tuple", "vector", "nullptr_t") or \
                args[0].get("tk") != "c" or short(args[1].get("t", "")) in SMARTPTR
            if ext_ok:
                out = []
                for s, a in self.eval(args[0], st, fr):
                    for s2, b in self.eval(args[1], s, fr):
                        if eigen:
                            out.append((s2, self.eig_bin(op, a, b, args)))
                        elif op in ("&&", "||"):
                            out.append((s2, (land if op == "&&" else lor)(truth(a), truth(b))))
                        else:
                            out.append((s2, self.arith(op, a, b, "")))
                return out
        if self.is_pure(c):
            out = []
            for s, vs in self.eval_list(args, st, fr):
                if self.may_throw and self.may_throw(c):
                    self.thr[-1].append((s, "external", e["l"]))
                out.append((s, call("op" + op, *vs)))
            return out
        if objs:
            return self.generic_call(e, c, args[0], None, args[1:], st, fr)
        return self.generic_call(e, c, None, None, args, st, fr)

    def eval_lvs(self, es, st, fr):
        res = [(st, [])]
        for e in es:
            res = [(s2, vs + [l]) for s, vs in res for s2, l in self.lv(e, s, fr)]
        return res

    def eig_bin(self, op, a, b, args):
        sc = [x.get("tk") in ("f", "i", "u") for x in args[:2]]
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            if any(sc):
                return mul(a, b)
            if "Array" in args[0].get("t", "")[:60] or a.op == "arr" or b.op == "arr":
                return mk("amul", *sorted((a, b)))
            return mk("mmul", a, b)
        if op == "/":
            return div(a, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if op in ("&&", "||"):
            return (land if op == "&&" else lor)(a, b)
        raise Undecided("eigen op " + op)

    def comma(self, op, e, c, args, st, fr):
        out = []
        if op == "<<":
            for s, l in self.lv(args[0], st, fr):
                for s2, v in self.eval(args[1], s, fr):
                    s2, v = self.mat_arg(s2, v, args[1], fr)
                    d = edims(args[0].get("t", ""))
                    cm = mk("comma", mk("addr", l[0], l[1]), d or (-1, -1), (v,))
                    s3 = self.write(s2, l, self.comma_val(cm))
                    out.append((s3, cm))
            return out
        for s, cv in self.eval(args[0], st, fr):
            for s2, v in self.eval(args[1], s, fr):
                s2, v = self.mat_arg(s2, v, args[1], fr)
                if cv.op == "comma":
                    cm = mk("comma", cv.a[0], cv.a[1], cv.a[2] + (v,))
                    s2 = self.write(s2, (cv.a[0].a[0], cv.a[0].a[1]), self.comma_val(cm))
                    out.append((s2, cm))
                else:
                    out.append((s2, call("comma", cv, v)))
        return out

    def mat_arg(self, s, v, node, fr):
        """an element of a comma initialiser; matrices are kept as blocks"""
        if v.op == "mat":
            return s, (mk("blk", v.a[0], v.a[1], v) if len(v.a[2]) != 1 else v.a[2][0])
        d = xdims(node.get("t", ""))
        if d is not None and d != (1, 1):
            return s, mk("blk", d[0], d[1], v)
        return s, v

    def comma_val(self, cm):
        d, el = cm.a[1], cm.a[2]
        if any(x.op == "blk" for x in el):
            if d[0] <= 0 or d[1] <= 0 or any(x.op == "blk" and (x.a[0] <= 0 or x.a[1] <= 0) for x in el):
                return mk("commalist", d, el)
            cell = [mk("uninit", "comma", i) for i in range(d[0] * d[1])]
            r = c = h = 0
            for x in el:
                br, bc = (x.a[0], x.a[1]) if x.op == "blk" else (1, 1)
                if c and c + bc > d[1]:
                    r, c = r + h, 0
                h = br if not c else h
                if br != h or r + br > d[0] or c + bc > d[1]:
                    return mk("commalist", d, el)
                for i in range(br):
                    for j in range(bc):
                        v = x if x.op != "blk" else idx(x.a[2], num(i if bc == 1 else j)) if 1 in (br, bc) else idx(x.a[2], num(i), num(j))
                        cell[(r + i) * d[1] + c + j] = v
                c += bc
            return mk("mat", d[0], d[1], tuple(cell))
        if d[0] > 0 and d[1] > 0 and len(el) <= d[0] * d[1] and not any(x.op in ("mat",) for x in el):
            el2 = el + tuple(mk("uninit", "comma", i) for i in range(len(el), d[0] * d[1]))
            return mk("mat", d[0], d[1], el2)
        return mk("commalist", d, el)

    # ---- method calls
    def mcall(self, e, c, st, fr):
        n = c["n"]
        args = e["a"]
        obj = e["o"]
        op = e.get("op")
        if c.get("virtual") and not e.get("qual") and not op:
            d = {}
            for s, l in self.obj_loc(e, st, fr):
                d.setdefault(self.overrider(c, l, fr), []).append((s, l))
            if set(d) - {c["id"]}:
                out = []
                for fid, sl in d.items():
                    for s, l in sl:
                        if self.inlinable(fid):
                            for s2, b in self.eval_args(fid, args, s, fr):
                                out += self.call_fn(fid, l, b, s2, e["l"])
                        else:
                            out += self.generic_call(e, c, obj, e.get("arrow"), args, st, fr)
                return out
        if self.inlinable(c["id"]) and not (c["id"].startswith("lambda:")):
            out = []
            for s, l in self.obj_loc(e, st, fr):
                for s2, b in self.eval_args(c["id"], args, s, fr):
                    out += self.call_fn(c["id"], l, b, s2, e["l"])
            return out
        if op:
            return self.operator(op, e, c, True, [obj] + args, st, fr)
        if n == "operator=" and c.get("kind") == "cassign" and obj.get("ck") == "DerivedToBase" and not c["q"].startswith("Eigen"):
            bn = "<base:" + c["cls"] + ">"      # assignment of the external base part
            return [(self.write(s2, (l[0], l[1] + (bn,)), self.read(s2, (l2[0], l2[1] + (bn,)))), l)
                    for s, l in self.obj_loc(e, st, fr) for s2, l2 in self.lv(args[0], s, fr)]
        cls = c.get("cls", "")
        sh = short(cls)
        if sh in SMARTPTR or sh.startswith("__shared_ptr"):
            if n in ("get", "operator->", "lock"):
                return [(s, self.read(s, l)) for s, l in self.obj_loc(e, st, fr)]
            if n == "operator*":
                return [(s, self.deref(self.read(s, l))) for s, l in self.obj_loc(e, st, fr)]
            if n == "operator bool" or "operator" in n and "bool" in n:
                return [(s, truth(self.read(s, l), True)) for s, l in self.obj_loc(e, st, fr)]
            if n == "reset":
                out = []
                for s, l in self.obj_loc(e, st, fr):
                    for s2, vs in self.eval_list(args, s, fr):
                        out.append((self.write(s2, l, vs[0] if vs else NULL), mk("void")))
                return out
        if any(x in cls for x in STREAMY):
            return [(s, l) for s, l in self.obj_loc(e, st, fr)]
        if cls.replace("const ", "").startswith("Eigen::"):
            return self.eig_method(e, c, n, args, st, fr)
        if c["q"].startswith("std::") or c["q"].startswith("boost::") or c["q"].startswith("__gnu"):
            r = self.std_method(e, c, n, args, st, fr)
            if r is not None:
                return r
        return self.generic_call(e, c, obj, e.get("arrow"), args, st, fr)

    def overrider(self, c, loc, fr):
        """final overrider of virtual member c for the object at loc (c itself when its class is unknown)"""
        if loc[1] != ():
            return c["id"]
        cls = self.dyn.get(loc[0])
        if cls is None or cls == c.get("cls") or c.get("cls") not in self.m.bases(cls):
            return c["id"]
        for fid in self.stack:     # during construction the object is only as derived as the running constructor
            f = self.m.fn[fid]
            if f["kind"] in ("ctor", "cctor", "dtor") and f.get("cls") in self.m.bases(cls):
                return c["id"]
        want = [p["t"] for p in c["params"]]
        for k in [cls] + self.m.bases(cls):
            if k == c.get("cls"):
                break
            for f in self.m.methods(k):
                if f["n"] == c["n"] and bool(f.get("const")) == bool(c.get("const")) and [p["t"] for p in f["params"]] == want:
                    return f["id"]
        return c["id"]

    def obj_loc(self, e, st, fr):
        o = e["o"]
        if e.get("arrow"):
            return [(s, self.deref(p)) for s, p in self.eval(o, st, fr)]
        return self.lv(o, st, fr)

    def acc(self, s, l, vs, checked, line):
        if not self.access:
            return s
        cv = self.read(s, l)
        return s.ev(Ev("access", mk("addr", l[0], l[1]), cv, tuple(vs) + (TRUE if checked else FALSE,), line, "access", facts=s.facts))

    def eig_method(self, e, c, n, args, st, fr):
        out = []
        if n in ("operator()", "operator[]", "coeff", "coeffRef"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    s2 = self.acc(s2, l, vs, False, e["l"])
                    out.append((s2, (l[0], l[1] + (("i", tuple(vs)),))))
            return out
        if n in ("x", "y", "z", "w") and not args:
            k = {"x": 0, "y": 1, "z": 2, "w": 3}[n]
            return [(s, (l[0], l[1] + (("i", (num(k),)),))) for s, l in self.obj_loc(e, st, fr)]
        if n in EIG_ID:
            if n == "finished":
                for s, v in self.eval(e["o"], st, fr):
                    out.append((s, self.comma_val(v) if v.op == "comma" else v))
                return out
            return [(s, l) for s, l in self.obj_loc(e, st, fr)]
        if n == "array":
            return [(s, mk("arr", self.read(s, l))) for s, l in self.obj_loc(e, st, fr)] if not self._is_asg(e) else [(s, l) for s, l in self.obj_loc(e, st, fr)]
        if n == "matrix":
            for s, l in self.obj_loc(e, st, fr):
                v = self.read(s, l)
                out.append((s, v.a[0] if v.op == "arr" else v))
            return out
        if n in EIG_PROXY:
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    ta = tuple(x for x in (c.get("targs") or []))
                    sel = (mk("str", n + ("<" + ",".join(ta) + ">" if ta else "")),) + tuple(vs)
                    out.append((s2, (l[0], l[1] + (("i", sel),))))
            return out
        if n in ("size", "rows", "cols"):
            d = edims(cls_t(e["o"]))
            for s, l in self.obj_loc(e, st, fr):
                v = self.read(s, l)
                dd = d
                if dd is None or min(dd) <= 0:
                    if v.op == "mat":
                        dd = (v.a[0], v.a[1])
                if dd is not None:
                    if n == "rows" and dd[0] > 0:
                        out.append((s, num(dd[0])))
                        continue
                    if n == "cols" and dd[1] > 0:
                        out.append((s, num(dd[1])))
                        continue
                    if n == "size" and dd[0] > 0 and dd[1] > 0:
                        out.append((s, num(dd[0] * dd[1])))
                        continue
                out.append((s, call(n, v) if n != "size" else self.size(v)))
            return out
        setters = {"setZero": "Zero", "setOnes": "Ones", "setIdentity": "Identity", "setConstant": "Constant", "fill": "Constant"}
        if n in setters:
            d = edims(cls_t(e["o"]))
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((self.write(s2, l, self.eig_const(setters[n], d, vs)), l))
            return out
        dc = c.get("cls", "")
        if n == "compute" and len(args) == 1 and ("LLT<" in dc.split("Matrix")[0] or "LDLT<" in dc.split("Matrix")[0]):
            # decomposing into an object gives what constructing it from the matrix gives
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((self.write(s2, l, mk("ctor", dc, *vs)), l))
            return out
        if n in ("transposeInPlace", "adjointInPlace"):
            for s, l in self.obj_loc(e, st, fr):
                v = self.read(s, l)
                out.append((self.write(s, l, call("transpose", v)), mk("void")))
            return out
        if n in ("resize", "conservativeResize"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    v = self.read(s2, l)
                    d = edims(cls_t(e["o"])) or dims_in(c.get("cls", ""))
                    if d and d[0] > 0 and d[1] > 0:
                        out.append((s2, mk("void")))
                        continue
                    if n == "resize" and v in (EMPTYMAT, EMPTYVEC) and not any(x is num(0) for x in vs):
                        v = mk("uninit", "Eigen")
                    nv = mk("sized", n, v, *vs) if not (len(vs) == 1 and isnum(vs[0]) and vs[0].a[0] == 0) else mk("empty")
                    s3 = self.write(s2, l, nv)
                    s3 = s3.ev(Ev(n, mk("addr", l[0], l[1]), v, tuple(vs), e["l"], c["q"], nv))
                    out.append((s3, mk("void")))
            return out
        if n == "swap":
            return self.swap_m(e, args, st, fr)
        if n in ("cwiseProduct",):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((s2, mk("amul", *sorted((self.read(s2, l), vs[0])))))
            return out
        if c.get("const") or n in ("transpose", "inverse", "determinant"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((s2, self.eig_fn(n, self.read(s2, l), vs)))
            return out
        return self.generic_call(e, c, e["o"], e.get("arrow"), args, st, fr)

    def _is_asg(self, e):
        return False

    def eig_fn(self, n, v, vs):
        if n in ("abs", "cwiseAbs"):
            return call("abs", v)
        if n in ("sqrt", "cwiseSqrt"):
            return call("sqrt", v)
        if n in ("log", "exp"):
            return call(n, v)
        if n == "transpose" and v.op == "call" and v.a[0] == "transpose":
            return v.a[1]
        if n in ("square", "cwiseAbs2", "abs2"):
            return mk("amul", v, v)
        return call(n, v, *vs)

    def swap_m(self, e, args, st, fr):
        out = []
        for s, a in self.obj_loc(e, st, fr):
            for s2, b in self.lv(args[0], s, fr):
                va, vb = self.read(s2, a), self.read(s2, b)
                s3 = self.write(self.write(s2, a, vb), b, va)
                out.append((s3.ev(Ev("swap", self.locterm(a), va, (self.locterm(b), vb), e["l"], "swap", facts=s2.facts)), mk("void")))
        return out

    def std_method(self, e, c, n, args, st, fr):
        sh = short(c.get("cls", ""))
        out = []
        if n in ("begin", "cbegin", "end", "cend"):
            return [(s, self.iter_of(s, l, n.lstrip("c"))) for s, l in self.obj_loc(e, st, fr)]
        if n in ("size", "length"):
            return [(s, self.size(self.read(s, l))) for s, l in self.obj_loc(e, st, fr)]
        if n == "empty":
            return [(s, eq(self.size(self.read(s, l)), FALSE)) for s, l in self.obj_loc(e, st, fr)]
        if n in ("at", "operator[]"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    s2 = self.acc(s2, l, vs, n == "at", e["l"])
                    if n == "operator[]" and "map" in sh and not c.get("const"):
                        pass
                    out.append((s2, (l[0], l[1] + (("i", tuple(vs)),))))
            return out
        if n in ("front", "back"):
            for s, l in self.obj_loc(e, st, fr):
                cv = self.read(s, l)
                i = num(0) if n == "front" else sub(self.size(cv), num(1))
                s = self.acc(s, l, [i], False, e["l"])
                if n == "back" and cv.op == "mut" and cv.a[0] == "push_back":
                    i = call("size", cv.a[1]) if cv.a[1].op != "empty" else num(0)
                out.append((s, (l[0], l[1] + (("i", (i,)),))))
            return out
        if n == "find" and sh in ("map", "unordered_map", "set", "unordered_set", "multimap"):
            for s, l in self.obj_loc(e, st, fr):
                cv = self.read(s, l)
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((s2, mk("iter", mk("addr", l[0], l[1]), mk("find", cv, vs[0]))))
            return out
        if n == "count" and c.get("const"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    out.append((s2, call("count", self.read(s2, l), vs[0])))
            return out
        if n == "clear":
            for s, l in self.obj_loc(e, st, fr):
                old = self.read(s, l)
                s2 = self.write(s, l, mk("empty"))
                out.append((s2.ev(Ev("clear", mk("addr", l[0], l[1]), old, (), e["l"], c["q"])), mk("void")))
            return out
        if n == "swap":
            return self.swap_m(e, args, st, fr)
        if n in ("reserve", "shrink_to_fit", "rehash"):
            return [(s2, mk("void")) for s, l in self.obj_loc(e, st, fr) for s2, _ in self.eval_list(args, s, fr)]
        if n in ("push_back", "emplace_back", "insert", "emplace", "erase", "pop_back", "resize", "assign", "push_front", "insert_or_assign"):
            for s, l in self.obj_loc(e, st, fr):
                for s2, vs in self.eval_list(args, s, fr):
                    old = self.read(s2, l)
                    nm = "push_back" if n == "emplace_back" else "insert" if n in ("emplace",) else n
                    a = tuple(x.a[1] if isinstance(x, T) and x.op == "iter" else x for x in vs)
                    ismap = sh in ("map", "unordered_map")
                    if ismap and nm == "insert":
                        if len(a) == 1 and a[0].op == "rec" and a[0].a[0] == "pair":
                            d = dict(a[0].a[1])
                            a = (d["first"], d["second"])
                    if ismap and nm == "erase" and len(a) == 1 and a[0].op == "find":
                        a = (a[0].a[1],)
                    if nm == "insert_or_assign":
                        nv = upd(old, (a[0],), a[1])
                    elif nm == "resize" and len(a) == 1 and isnum(a[0]) and a[0].a[0] == 0:
                        nv = mk("empty")
                    elif nm == "erase" and len(a) == 2 and isinstance(a[0], T) and isnum(a[0]) and a[0].a[0] == 0 and a[1] is self.size(old):
                        nm, a, nv = "clear", (), mk("empty")
                    elif nm == "insert" and len(a) == 2 and not ismap and a[0] is self.size(old):
                        nm, a = "push_back", (a[1],)
                        nv = mk("mut", "push_back", old, *a)
                    else:
                        nv = mk("mut", nm, old, *a)
                    s3 = self.write(s2, l, nv)
                    s3 = s3.ev(Ev(nm, mk("addr", l[0], l[1]), old, a, e["l"], c["q"], nv, facts=s2.facts))
                    r = mk("void")
                    if n in ("insert", "emplace") and sh in ("map", "unordered_map", "set", "unordered_set") and len(a) == 1 + ismap:
                        it = mk("iter", mk("addr", l[0], l[1]), mk("find", nv, a[0]))
                        r = mk("rec", "pair", (("first", it), ("second", lnot(mk("has", old, a[0])))))
                    elif n in ("erase", "insert", "emplace"):
                        r = mk("iter", mk("addr", l[0], l[1]), a[0] if a else num(0)) if n == "erase" else mk("ret", n, old, *a)
                        if n == "erase" and ismap:
                            r = mk("ret", n, old, *a)
                    out.append((s3, r))
            return out
        return None

    def is_pure(self, c):
        if self.pure(c):
            return True
        if c["n"] in IMPURE or self.fresh(c):
            return False
        if c.get("cls") and not c.get("static") and not c.get("const") and c.get("kind") in ("method", "conv"):
            return False
        if c.get("ret") == "void" and not c.get("const"):
            return False
        for p in c["params"]:
            if p["ref"] == "r":
                return False
            if p["tk"] == "p" and p.get("pconst") is False and "shared_ptr" not in p["t"]:
                return False
        return True

    def generic_call(self, e, c, obj, arrow, args, st, fr):
        """external or opaque call"""
        n = c["n"]
        res = []
        starts = [(st, None)]
        if obj is not None:
            starts = self.obj_loc(e, st, fr) if e["k"] == "mcall" else self.lv(obj, st, fr)
        ps = c["params"]
        for s, l in starts:
            argres = [(s, [], [])]
            for i, a in enumerate(args):
                ref = ps[i]["ref"] if i < len(ps) else "v"
                nxt = []
                for s1, vals, muts in argres:
                    if ref == "r":
                        for s2, al in self.lv(a, s1, fr):
                            nxt.append((s2, vals + [self.read(s2, al)], muts + [(i, al)]))
                    else:
                        for s2, v in self.eval(a, s1, fr):
                            m2 = muts
                            if i < len(ps) and ps[i]["tk"] == "p" and ps[i].get("pconst") is False:
                                m2 = muts + [(i, self.deref(v))] if v is not NULL else muts
                            nxt.append((s2, vals + [v], m2))
                argres = nxt
            for s1, vals, muts in argres:
                vals = tuple(vals)
                nm = n if not c.get("targs") or not c.get("inrepo") else n
                if self.may_throw and self.may_throw(c):
                    self.thr[-1].append((s1, "external", e["l"]))
                old = self.read(s1, l) if l is not None else None
                if self.is_pure(c):
                    if l is not None:
                        v = call(nm, self.locterm(l) if self.identity(c) else old, *vals)
                    else:
                        v = call(nm, *vals)
                    if c.get("ret"):
                        TYPES[v] = c["ret"]
                    if self.opaque(c):
                        s1 = s1.ev(Ev(nm, self.locterm(l) if l is not None else None, old, vals, e["l"], c["q"], facts=s1.facts))
                    if c.get("rref") == "r" and l is not None:
                        res.append((s1, (("o", mk("refof", nm, self.locterm(l), *vals)), ())))
                    else:
                        res.append((s1, v))
                    continue
                cnt = drawn(s1.trace, n) if l is None else 0
                allv = ((old,) if old is not None else ()) + vals
                rv = mk("ret", nm, *allv) if l is not None or muts else mk("ret", nm, *(allv + (num(cnt),)))
                fr1 = self.fresh(c)
                if fr1:        # "object": the value also depends on the object
                    rv = mk("ret", nm, *(((old,) if fr1 == "object" and old is not None else ()) + vals + (num(drawn(s1.trace, n)),)))
                s2 = s1
                lterm = self.locterm(l) if l is not None else None
                if c.get("rref") == "r" and l is not None and c.get("kind") == "method":
                    rvl = (("o", mk("refof", nm, lterm, *vals)), ())
                else:
                    rvl = None
                if l is not None and not (c.get("const") and c.get("kind") in ("method", "conv")):
                    bp = self.base_part(c, l, fr)
                    if bp is not None:
                        l, old = bp, self.read(s2, bp)
                    more = [(ml, self.read(s2, ml)) for ml in self.also(c, l, s2)]
                    s2 = self.write(s2, l, mk("mut", nm, old, *vals))
                    for ml, mv in more:
                        s2 = self.write(s2, ml, mk("mut", nm, mv, *[v for _, v in more if v is not mv]))
                for i, al in muts:
                    s2 = self.write(s2, al, mk("out", nm, i, *allv))
                s2 = s2.ev(Ev(nm, lterm, old, vals, e["l"], c["q"], facts=s1.facts))
                res.append((s2, rvl if rvl is not None else rv))
        return res

    def base_part(self, c, l, fr):
        """location of the external base subobject a plain setter of that base is confined to"""
        own = self.m.fn[self.stack[-1]].get("cls") if self.stack else None
        if own is None or l[1] != () or l != fr.this or c.get("inrepo") or c["n"] not in BASE_SETTERS:
            return None
        for b in self.m.bases(own):
            if self.m.rec.get(b, {}).get("inrepo"):
                continue
            if b == c.get("cls") or c.get("cls") in self.m.bases(b):
                return (l[0], (f"<base:{b}>",))
        return None

    def algorithm(self, n, e, c, st, fr):
        """std algorithms over [begin,end) with a lambda"""
        args = e["a"]
        out = []
        for s, vs in self.eval_list(args, st, fr):
            b, en = vs[0], vs[1]
            lam = next((v for v in vs[2:] if isinstance(v, T) and v.op == "lam"), None)
            if not (b.op == "iter" and en.op == "iter" and b.a[0] is en.a[0]):
                return None
            lo, hi = b.a[1], en.a[1]
            if n == "fill":
                def body(s2, iv):
                    return [("n", self.write(s2, self.deref(mk("iter", b.a[0], iv)), vs[2]), None)]
                out += [(s2, mk("void")) for k, s2, _ in self.count_loop(s, lo, hi, body, e["l"]) if k == "n"]
                continue
            if n == "accumulate":
                s, al = self.local(s, vs[2], fr)

                def body(s2, iv):
                    el = self.read(s2, self.deref(mk("iter", b.a[0], iv)))
                    if lam is None:
                        return [("n", self.write(s2, al, add(self.read(s2, al), el)), None)]
                    return [("n", self.write(s3, al, self.read(s3, v) if isinstance(v, tuple) else v), None)
                            for s3, v in self.call_lam(lam, [self.read(s2, al), self.deref(mk("iter", b.a[0], iv))], s2, e["l"])]
                out += [(s2, self.read(s2, al)) for k, s2, _ in self.count_loop(s, lo, hi, body, e["l"]) if k == "n"]
                continue
            if n in ("transform", "copy") and len(vs) >= 3 and vs[2].op == "iter":
                if n == "transform" and (lam is None or len(vs) != 4):
                    return None
                ob = vs[2]

                def body(s2, iv):
                    src = self.deref(mk("iter", b.a[0], iv))
                    dst = self.deref(mk("iter", ob.a[0], add(ob.a[1], sub(iv, lo))))
                    if n == "copy":
                        return [("n", self.write(s2, dst, self.read(s2, src)), None)]
                    return [("n", self.write(s3, dst, self.read(s3, v) if isinstance(v, tuple) else v), None)
                            for s3, v in self.call_lam(lam, [src], s2, e["l"])]
                out += [(s2, mk("void")) for k, s2, _ in self.count_loop(s, lo, hi, body, e["l"]) if k == "n"]
                continue
            if lam is None:
                return None
            if n == "for_each":
                def body(s2, iv):
                    return [("n", s3, None) for s3, _ in self.call_lam(lam, [self.deref(mk("iter", b.a[0], iv))], s2, e["l"])]
                out += [(s2, mk("void")) for k, s2, _ in self.count_loop(s, lo, hi, body, e["l"]) if k == "n"]
                continue
            if n in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if"):
                if n == "count_if":
                    s, al = self.local(s, num(0), fr)
                stop = n not in ("all_of", "find_if_not")
                find = n.startswith("find")

                def body(s2, iv):
                    r = []
                    for s3, v in self.call_lam(lam, [self.deref(mk("iter", b.a[0], iv))], s2, e["l"]):
                        v = self.read(s3, v) if isinstance(v, tuple) else v
                        for s4, hit in self.split(s3, truth(v)):
                            if n == "count_if":
                                r.append(("n", self.write(s4, al, add(self.read(s4, al), num(1))) if hit else s4, None))
                            elif hit == stop:
                                r.append(("r", s4, mk("iter", b.a[0], iv) if find else num(int(n == "any_of"))))
                            else:
                                r.append(("n", s4, None))
                    return r
                for k, s2, v in self.count_loop(s, lo, hi, body, e["l"]):
                    if k == "n":
                        v = self.read(s2, al) if n == "count_if" else en if find else num(int(n != "any_of"))
                    elif k != "r":
                        return None
                    out.append((s2, v))
                continue
            return None
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """[(state, bool)]"""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["e"], st, fr)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["lhs"], st, fr):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["rhs"], s, fr)
            return out
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            out = []
            for s, v in self.eval(e["e"], st, fr):
                out += self.split(s, truth(v, e["ck"].startswith("P")))
            return out
        out = []
        for s, v in self.eval(e, st, fr):
            out += self.split(s, truth(v, e.get("tk") == "p"))
        return out

    def split(self, s, v):
        if isnum(v):
            return [(s, v.a[0] != 0)]
        if v.op == "not":
            return [(x, not b) for x, b in self.split(s, v.a[0])]
        if v.op in ("and", "or"):
            out = []
            for x, b in self.split(s, v.a[0]):
                if b == (v.op == "or"):
                    out.append((x, b))
                else:
                    out += self.split(x, v.a[1])
            return out
        if v.op == "ite":
            out = []
            for x, b in self.split(s, v.a[0]):
                out += self.split(x, truth(v.a[1] if b else v.a[2]))
            return out
        if v.op == "eq":
            # lift ite out of comparisons
            for i in (0, 1):
                if v.a[i].op == "ite":
                    out = []
                    for x, b in self.split(s, v.a[i].a[0]):
                        o = v.a[1 - i]
                        w = v.a[i].a[1] if b else v.a[i].a[2]
                        out += self.split(x, eq(w, o))
                    return out
        out = []
        for b in (True, False):
            x = s.assume(v, b)
            if x is not None:
                out.append((x, b))
        return out

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        if n is None:
            return [("n", st, None)]
        k = n["s"]
        if k == "seq":
            return self.seq(n["b"], st, fr)
        if k == "expr":
            return [("n", s, None) for s, _ in self.merge_results([(s, None) for s, _ in self.evalx(n["e"], st, fr)])]
        if k == "null":
            return [("n", st, None)]
        if k == "decl":
            states = [st]
            for v in n["v"]:
                nxt = []
                for s in states:
                    nxt += self.decl(v, s, fr)
                states = nxt
            return [("n", s, None) for s in states]
        if k == "ret":
            e = n.get("e")
            if e is None:
                return [("r", st, None)]
            if fr.fn and fr.fn.get("rref") in ("r", "cr"):
                return [("r", s, l) for s, l in self.lv(e, st, fr)]
            if fr.fn and fr.fn.get("rtk") == "v":
                return [("r", s, None) for s, _ in self.eval(e, st, fr)]
            return [("r", s, v) for s, v in self.eval(e, st, fr)]
        if k == "if":
            out = []
            pre = [st]
            if n.get("init"):
                pre = [s for kk, s, _ in self.exec(n["init"], st, fr)]
            for s in pre:
                if n.get("cv"):
                    ss = self.decl(n["cv"], s, fr)
                else:
                    ss = [s]
                for s1 in ss:
                    for s2, b in self.cond(n["c"], s1, fr):
                        if b:
                            out += self.exec(n["t"], s2, fr)
                        elif n.get("e") is not None:
                            out += self.exec(n["e"], s2, fr)
                        else:
                            out.append(("n", s2, None))
            return self.merge(out)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(n, st, fr)
        if k == "brk":
            return [("b", st, None)]
        if k == "cont":
            return [("c", st, None)]
        if k == "try":
            return self.try_(n, st, fr)
        if k == "sw":
            return self.switch(n, st, fr)
        if k in ("case", "default", "label"):
            return self.exec(n["b"], st, fr)
        raise Undecided("statement " + k + " " + n.get("cls", ""))

    def evalx(self, e, st, fr):
        """expression statement: avoid reading reference results"""
        if e["k"] in ("call", "mcall"):
            return self.do_call(e, st, fr)
        if e["k"] == "asg":
            return self.assign(e, st, fr)
        return self.eval(e, st, fr)

    def seq(self, stmts, st, fr):
        cur = [st]
        out = []
        for n in stmts:
            nxt = []
            for s in cur:
                for k, s2, v in self.exec(n, s, fr):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            cur = [s for s, _ in self.merge_results([(s, None) for s in nxt])]
            if not cur:
                break
        return self.merge(out + [("n", s, None) for s in cur])

    def merge(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = {}, []
        for k, s, v in outs:
            key = (k, self.skey(s), v)
            if key in seen:
                i = seen[key]
                s0 = res[i][1]
                res[i] = (k, s0.with_facts(s0.facts.join(s.facts)), v)
            else:
                seen[key] = len(res)
                res.append((k, s, v))
        if len(res) > self.MAXSTATES:
            raise Undecided("too many states")
        return res

    def decl(self, v, st, fr):
        key = (fr.id, v["id"])
        if v.get("static"):
            st = st.copy()
            st.env[key] = (("g", (fr.fn["q"] if fr.fn else "") + "::" + v["n"]), ())
            return [st]
        if v["ref"] in ("r", "cr", "rr") and v.get("init") is not None:
            out = []
            for s, l in self.lv(v["init"], st, fr):
                s = s.copy()
                s.env[key] = l
                out.append(s)
            return out
        loc = (("v", fr.id, v["id"]), ())
        s = st.copy()
        s.env[key] = loc
        # a loop may re-declare: reset
        s.store.pop(loc[0], None)
        if v["tk"] == "c":
            self.dyn[loc[0]] = v.get("rec") or v["t"].replace("const ", "")
        if v.get("init") is None:
            if v["tk"] == "c":
                return [self.write(s, loc, self.ext_default(v.get("rec") or v["t"]))]
            return [self.write(s, loc, mk("uninit", v["n"]))]
        return self.init_into(loc, v["init"], s, fr)

    def try_(self, n, st, fr):
        self.thr.append([])
        out = self.exec(n["b"], st, fr)
        thrown = self.thr.pop()
        for s, ty, line in thrown:
            handled = False
            for h in n["h"]:
                ht = h.get("t")
                if ht is None or self.catches(ht, ty):
                    handled = True
                    s2 = s
                    if h.get("v"):
                        s2 = s.copy()
                        loc = (("v", fr.id, h["v"]["id"]), ())
                        s2.env[(fr.id, h["v"]["id"])] = loc
                        s2 = self.write(s2, loc, mk("exception", ty))
                    self.thr.append([])
                    r = self.exec(h["b"], s2, fr)
                    inner = self.thr.pop()
                    for s3, ty3, l3 in inner:
                        self.thr[-1].append((s3, ty if ty3 == "rethrow" else ty3, line if ty3 == "rethrow" else l3))
                    out += r
                    break
            if not handled:
                self.thr[-1].append((s, ty, line))
        return self.merge(out)

    def catches(self, ht, ty):
        h = ht.replace("const ", "").replace(" &", "").replace("&", "").strip()
        t = ty.replace("const ", "").strip()
        if h == t or h == "std::exception":
            return True
        return h in self.m.bases(t)

    def switch(self, n, st, fr):
        out = []
        body = n["b"]["b"] if n["b"]["s"] == "seq" else [n["b"]]
        # flatten nested case labels into (value|None, index)
        labels = []
        flat = []
        for x in body:
            y = x
            while y and y["s"] in ("case", "default"):
                labels.append((y["v"] if y["s"] == "case" else None, len(flat)))
                y = y["b"]
            flat.append(y)
        for s, v in self.eval(n["c"], st, fr):
            cur = [s]
            done = []
            deflt = None
            for lab, i in labels:
                if lab is None:
                    deflt = i
                    continue
                nxt = []
                for s1 in cur:
                    for s2, lvv in self.eval(lab, s1, fr):
                        for s3, b in self.split(s2, eq(v, lvv)):
                            if b:
                                done.append((s3, i))
                            else:
                                nxt.append(s3)
                cur = nxt
            for s1 in cur:
                if deflt is not None:
                    done.append((s1, deflt))
                else:
                    out.append(("n", s1, None))
            for s1, i in done:
                for k, s2, r in self.seq([x for x in flat[i:] if x], s1, fr):
                    out.append(("n" if k == "b" else k, s2, r))
        return self.merge(out)

    # ------------------------------------------------------------ loops
    def loop(self, n, st, fr):
        k = n["s"]
        if k == "rfor":
            out = []
            for s, l in self.lv(n["r"], st, fr):
                cv = self.read(s, l)
                key = (fr.id, n["v"]["id"])

                def body(s2, iv, l=l):
                    el = (l[0], l[1] + (("i", (iv,)),))
                    s2 = s2.copy()
                    if n["v"]["ref"] != "v":
                        s2.env[key] = el
                    else:
                        loc = (("v", fr.id, n["v"]["id"]), ())
                        s2.env[key] = loc
                        s2 = self.write(s2, loc, self.read(s2, el))
                    return self.exec(n["b"], s2, fr)
                out += self.count_loop(s, num(0), self.size(cv), body, n["l"])
            return out
        pre = [st]
        if k == "for" and n.get("init") is not None:
            pre = [s for kk, s, _ in self.exec(n["init"], st, fr)]
        out = []
        for s in pre:
            r = self.unroll(n, s, fr)
            if r is None:
                r = self.symloop(n, s, fr)
            out += r
        return self.merge(out)

    def step(self, n, s, fr, body=True):
        """one iteration after the condition held: returns (back states, exits)"""
        back, exits = [], []
        for k, s2, v in self.exec(n["b"], s, fr):
            if k in ("n", "c"):
                if n.get("inc") is not None:
                    back += [x for x, _ in self.evalx(n["inc"], s2, fr)]
                else:
                    back.append(s2)
            else:
                exits.append((k, s2, v))
        return back, exits

    def loopcond(self, n, s, fr):
        if n.get("cv"):
            out = []
            for s1 in self.decl(n["cv"], s, fr):
                out += self.cond(n["c"], s1, fr)
            return out
        if n.get("c") is None:
            return [(s, True)]
        return self.cond(n["c"], s, fr)

    def unroll(self, n, st, fr):
        self.thr.append([])
        cur = [st]
        out = []
        first = n["s"] == "do"
        for it in range(self.UNROLL):
            nxt = []
            for s in cur:
                if first:
                    go = [(s, True)]
                else:
                    go = self.loopcond(n, s, fr)
                    if len(go) != 1:
                        self.thr.pop()
                        return None
                for s2, b in go:
                    if not b:
                        out.append(("n", s2, None))
                        continue
                    if n.get("c") is None or (n["c"]["k"] == "int"):
                        # while(true): only worth unrolling if it always exits
                        if it > 2:
                            self.thr.pop()
                            return None
                    back, exits = self.step(n, s2, fr)
                    nxt += back
                    for k, s3, v in exits:
                        out.append(("n", s3, None) if k == "b" else (k, s3, v))
            first = False
            cur = [s for s, _ in self.merge_results([(s, None) for s in nxt])]
            if len(cur) > 64:
                self.thr.pop()
                return None
            if not cur:
                t = self.thr.pop()
                self.thr[-1] += t
                return out
        self.thr.pop()
        return None

    def diff(self, a, b, since=None):
        """(root,path) locations of a's roots whose value differs in b"""
        out = set()
        for r, d in b.store.items():
            if r[0] == "t":
                continue
            if since is not None and r[0] == "o" and isinstance(r[1], T) and r[1].op == "new" and r[1].a[-1][0] == "n" and int(r[1].a[-1][1:]) > since:
                continue    # object of the iteration itself
            d0 = a.store.get(r)
            if d0 is d:
                continue
            if d0 is None:
                if r[0] == "v":
                    continue  # declared inside
                for p in d:
                    out.add((r, p))
                continue
            for p in set(d) | set(d0):
                if d.get(p) is not d0.get(p):
                    out.add((r, p))
        # normalise: drop locations covered by a modified prefix
        res = set()
        for r, p in out:
            if not any((r, p[:i]) in out for i in range(len(p))):
                res.add((r, p))
        return res

    def havoc_val(self, loc, init, tag):
        nm = self.locname(loc)
        if tag == "u":
            v = mk("phi", self.loopdepth, nm, init, "u")
            if init in TYPES:
                TYPES[v] = TYPES[init]
            return v
        if init.op == "iter":
            return mk("iter", init.a[0], mk("phi", self.loopdepth, nm, init.a[1]))
        v = mk("phi", self.loopdepth, nm, init)
        if init in TYPES:
            TYPES[v] = TYPES[init]
        return v

    def locname(self, loc):
        r, p = loc
        return f"{r[0]}{r[2] if r[0] == 'v' else ''}" + "".join("." + x if isinstance(x, str) else "[]" for x in p) + (show(r[1]) if r[0] in ("o",) else str(r[1]) if r[0] == "g" else "")

    def symloop(self, n, st, fr):
        self.loopdepth += 1
        try:
            return self._symloop(n, st, fr)
        finally:
            self.loopdepth -= 1

    def _symloop(self, n, st, fr):
        isdo = n["s"] == "do"
        mod = set()
        base = st.with_facts(st.facts)
        base = St(st.store, st.facts, (), st.env)
        vals = {}
        uo = set()
        since = self.tmpn
        for rnd in range(8):
            h = base
            for loc in sorted(mod, key=str):
                h = self.write(h, loc, self.havoc_val(loc, self.read(base, loc), "u" if loc in uo else None))
            self.thr.append([])
            ends = []
            go = [(h, True)] if isdo else self.loopcond(n, h, fr)
            allends = []
            for s2, b in go:
                allends.append(s2)
                if not b:
                    continue
                back, exits = self.step(n, s2, fr)
                if isdo:
                    nb = []
                    for x in back:
                        for s4, b4 in self.loopcond(n, x, fr):
                            allends.append(s4)
                            if b4:
                                nb.append(s4)
                    back = nb
                ends += back
                allends += back + [x for _, x, _ in exits]
            allends += [x for x, _, _ in self.thr[-1]]
            self.thr.pop()
            new = set(mod)
            for x in allends:
                new |= self.diff(h, x, since)
            if new == mod or not (new - mod):
                uo2 = self.updonly(h, mod, allends)
                if uo2 <= uo:
                    break
                uo = uo2
                continue
            # prefix normalisation
            mod = {(r, p) for r, p in new if not any((r, p[:i]) in new for i in range(len(p)))}
        else:
            raise Undecided("loop fixpoint")
        # induction variables
        ivs = {}
        for loc in mod:
            hv = self.read(h, loc)
            phi = hv.a[1] if hv.op == "iter" else hv
            endv = [self.read(x, loc) for x in ends]
            endv = [(v.a[1] if v.op == "iter" and hv.op == "iter" else v) for v in endv]
            if endv and all(v is add(phi, num(1)) for v in endv):
                lo = self.read(base, loc)
                lo = lo.a[1] if lo.op == "iter" else lo
                hi = None
                for s2, b in go:
                    if not b:
                        continue
                    for at, val in s2.facts.d.items():
                        if at in h.facts.d:
                            continue
                        hi = hi or self.bound(at, val, phi)
                if isdo and hi is None:
                    for x in ends:
                        for at, val in x.facts.d.items():
                            if at in h.facts.d:
                                continue
                            hi = hi or self.bound(at, val, add(phi, num(1)))
                if hi is None:
                    continue
                ivs[loc] = (hv, phi, lo, hi)
        vals = {}
        for loc, (hv, phi, lo, hi) in ivs.items():
            if contains(hi, lambda t: t.op == "phi" and t.a[0] == self.loopdepth):
                continue
            iv = mk("iv", self.loopdepth, lo, hi)
            vals[loc] = mk("iter", hv.a[0], iv) if hv.op == "iter" else iv
        # final run
        h = base
        for loc in sorted(mod, key=str):
            h = self.write(h, loc, vals.get(loc) or self.havoc_val(loc, self.read(base, loc), "u" if loc in uo else None))
        rng = None
        for loc in sorted(vals, key=str):
            v = vals[loc]
            iv = v.a[1] if v.op == "iter" else v
            rng = mk("range", iv.a[1], iv.a[2])
        return self.finish_loop(n, fr, st, base, h, mod, rng, ivs, isdo, n["l"],
                                lambda hh: [(hh, True)] if isdo else self.loopcond(n, hh, fr),
                                lambda s2: self.step(n, s2, fr),
                                (lambda x: self.loopcond(n, x, fr)) if isdo else None)

    def updonly(self, h, mod, ends):
        """modified sequences of which only elements are overwritten"""
        out = set()
        for loc in mod:
            hv = self.read(h, loc)
            if hv.op != "phi":
                continue
            init = hv.a[2]
            if "map<" in TYPES.get(init, ""):
                continue
            some = False
            for x in ends:
                v = self.read(x, loc)
                while v.op == "upd" and not isinstance(v.a[1][0], str):
                    v = v.a[0]
                    some = True
                if v is not hv:
                    some = False
                    break
            if some:
                out.add(loc)
        return out

    def bound(self, at, val, phi):
        a = at.a
        strip = lambda t: t.a[0] if t.op == "ucast" else t
        if at.op == "lt" and val and strip(a[0]) is phi:
            return a[1]
        if at.op == "le" and val and strip(a[0]) is phi:
            return add(a[1], num(1))
        if at.op == "lt" and not val and strip(a[1]) is phi:  # !(n < phi)
            return add(a[0], num(1))
        if at.op == "le" and not val and strip(a[1]) is phi:  # !(n <= phi)
            return a[0]
        if at.op == "eq" and not val:
            if strip(a[0]) is phi:
                return a[1]
            if strip(a[1]) is phi:
                return a[0]
        return None

    def count_loop(self, st, lo, hi, body, line):
        """loop over an explicit induction variable"""
        if isnum(lo) and isnum(hi) and hi.a[0] - lo.a[0] <= self.UNROLL:
            cur = [st]
            out = []
            for i in range(int(lo.a[0]), int(hi.a[0])):
                nxt = []
                for s in cur:
                    for k, s2, v in body(s, num(i)):
                        if k in ("n", "c"):
                            nxt.append(s2)
                        elif k == "b":
                            out.append(("n", s2, None))
                        else:
                            out.append((k, s2, v))
                cur = [s for s, _ in self.merge_results([(s, None) for s in nxt])]
            return self.merge(out + [("n", s, None) for s in cur])
        self.loopdepth += 1
        try:
            iv = mk("iv", self.loopdepth, lo, hi)
            base = St(st.store, st.facts, (), st.env)
            mod = set()
            uo = set()
            since = self.tmpn
            for rnd in range(8):
                h = base
                for loc in sorted(mod, key=str):
                    h = self.write(h, loc, self.havoc_val(loc, self.read(base, loc), "u" if loc in uo else None))
                hs = h.assume(lt(iv, hi), True)
                self.thr.append([])
                allends = [x for _, x, _ in body(hs or h, iv)] + [x for x, _, _ in self.thr[-1]]
                self.thr.pop()
                new = set(mod)
                for x in allends:
                    new |= self.diff(h, x, since)
                if not (new - mod):
                    uo2 = self.updonly(h, mod, allends)
                    if uo2 <= uo:
                        break
                    uo = uo2
                    continue
                mod = {(r, p) for r, p in new if not any((r, p[:i]) in new for i in range(len(p)))}
            else:
                raise Undecided("loop fixpoint")

            def condf(hh):
                a = hh.assume(lt(iv, hi), True)
                return [(a, True), (hh, False)] if a is not None else [(hh, False)]

            def stepf(s2):
                back, exits = [], []
                for k, s3, v in body(s2, iv):
                    (back.append(s3) if k in ("n", "c") else exits.append((k, s3, v)))
                return back, exits
            return self.finish_loop(None, None, st, base, h, mod, mk("range", lo, hi), {}, False, line, condf, stepf, None)
        finally:
            self.loopdepth -= 1

    def finish_loop(self, n, fr, st, base, h, mod, rng, ivs, isdo, line, condf, stepf, postcond):
        self.thr.append([])
        body_alts = []  # (kind, facts_delta, trace_delta, state, val)
        exits_n = []
        go = condf(h)
        f0 = set(h.facts.d.items())
        for s2, b in go:
            if not b:
                early = None
                if n is not None and not isdo and ivs:
                    early = self.early_exit(s2, f0, ivs, h)
                if early is None:
                    exits_n.append(s2)
                else:
                    body_alts.append(("b", early, s2.trace, s2, None))
                continue
            fc = set(s2.facts.d.items())
            back, ex = stepf(s2)
            if postcond:
                nb = []
                for x in back:
                    for s4, b4 in postcond(x):
                        if b4:
                            nb.append(s4)
                        else:
                            exits_n.append(s4)
                            body_alts.append(("x", [(a, v) for a, v in s4.facts.d.items() if (a, v) not in fc], s4.trace, s4, None))
                back = nb
            for x in back:
                body_alts.append(("n", [(a, v) for a, v in x.facts.d.items() if (a, v) not in fc], x.trace, x, None))
            for k, x, v in ex:
                body_alts.append((k, [(a, v2) for a, v2 in x.facts.d.items() if (a, v2) not in fc], x.trace, x, v))
        thrown = self.thr.pop()
        fcs = set()
        for s2, b in go:
            if b:
                fcs |= set(s2.facts.d.items())
        for x, ty, l in thrown:
            body_alts.append(("t", [(a, v) for a, v in x.facts.d.items() if (a, v) not in fcs], x.trace, x, (ty, l)))
        anyev = any(t for _, _, t, _, _ in body_alts)
        alts = tuple((k, tuple(f), tuple(t)) for k, f, t, _, _ in body_alts)
        nxt = ()
        if anyev:
            heads = [(loc, self.read(h, loc)) for loc in sorted(mod, key=str) if loc not in ivs]
            nxt = tuple(tuple((hv, self.read(x, loc)) for loc, hv in heads) for _, _, _, x, _ in body_alts)
        full = (LoopEv(rng, alts, line, False, nxt),) if anyev else ()
        part = (LoopEv(rng, alts, line, True, nxt),) if anyev else ()
        out = []
        # normal exits
        backs = [x for k, _, _, x, _ in body_alts if k == "n"]
        bfacts = [f for k, f, _, x, _ in body_alts if k == "n"]
        exconds = []
        for k, f, _, x, _ in body_alts:
            if k in ("b", "r", "t"):
                c = TRUE
                for a, v in f:
                    c = land(c, nots(a, v))
                exconds.append(c)
        depth = self.loopdepth
        isphi = lambda t: t.op == "phi" and t.a[0] == depth
        lm = self.close_loop(h, base, mod, rng, n, backs, f0, isdo, depth)
        for s2 in exits_n:
            fs = s2
            s3 = St(dict(s2.store), s2.facts, st.trace + full + (s2.trace if not postcond else ()), dict(s2.env))
            if not postcond:
                m = {}
                for loc in mod:
                    hv = self.read(h, loc)
                    init = self.read(base, loc)
                    if loc in ivs:
                        iv0 = ivs[loc]
                        lo, hi = iv0[2], iv0[3]
                        endt = hi
                        cur = hv
                        newv = mk("iter", hv.a[0], endt) if hv.op == "iter" else endt
                    else:
                        newv = self.foldval(loc, hv, init, backs, bfacts, rng, depth)
                        if newv.op == "after" and lm is not None:
                            newv = lm[hv.a[1] if hv.op == "iter" else hv]
                            if hv.op == "iter":
                                newv = mk("iter", hv.a[0], newv)
                    m[loc] = (hv, newv)
                sm = {}
                for loc, (hv, nv) in m.items():
                    if hv.op == "iter" and nv.op == "iter":
                        sm[hv.a[1]] = nv.a[1]
                    sm[hv] = nv
                for loc, (hv, nv) in m.items():
                    s3 = self.write(s3, loc, nv)
                # facts at exit: rename phi -> final values, drop loop-local induction facts
                nf = Facts()
                ok = True
                for a, v in s2.facts.d.items():
                    if (a, v) in f0 and not contains(a, lambda t: isphi(t) or (t.op == "iv" and t.a[0] == depth)):
                        a2 = a
                    elif (a, v) in f0:
                        continue
                    else:
                        a2 = subst(a, sm)
                        if contains(a2, lambda t: (t.op == "iv" and t.a[0] == depth)):
                            continue
                    g = nf.add(a2, v)
                    if g is None:
                        # contradiction after renaming: keep previous facts (sound)
                        continue
                    nf = g
                if exconds:
                    rest = False
                    for c in exconds:
                        if rng is not None and not contains(c, lambda t: isphi(t) or t.op in ("fold", "setrange", "forall")):
                            ivt = mk("iv", depth, rng.a[0], rng.a[1])
                            g = nf.add(mk("forall", rng.a[0], rng.a[1], subst(lnot(c), {ivt: sym("$i")})), True)
                            nf = g or nf
                        else:
                            rest = True
                    if rest and lm is not None:
                        for a, v in s2.facts.d.items():
                            if (a, v) not in f0:
                                a2 = subst(a, lm)
                                if a2 is not a:
                                    g = nf.add(a2, v)
                                    nf = g or nf
                nf.lossy = nf.lossy or s2.facts.lossy
                s3 = s3.with_facts(nf)
            out.append(("n", s3, None))
        for k, f, t, x, v in body_alts:
            if k in ("b", "r"):
                x, v = self.subst_state(x, v, lm)
                s3 = St(x.store, x.facts, st.trace + part + tuple(t), x.env)
                out.append(("n" if k == "b" else k, s3, v))
            elif k == "t":
                x, _ = self.subst_state(x, None, lm)
                s3 = St(x.store, x.facts, st.trace + part + tuple(t), x.env)
                self.thr[-1].append((s3, v[0], v[1]))
        return self.merge(out)

    def early_exit(self, s2, f0, ivs, h):
        """the guard fails although the counter is inside its range: the facts that made it fail, None when the range is exhausted"""
        out = []
        for at, val in s2.facts.d.items():
            if (at, val) in f0:
                continue
            flip = keep = None
            for loc, (_, _, lo, hi) in ivs.items():
                v = self.read(h, loc)
                v = v.a[1] if v.op == "iter" else v
                if self.bound(at, not val, v) is hi:
                    flip = True
                if self.bound(at, val, v) is hi:
                    keep = True
            if flip:
                return None
            if not keep:
                out.append((at, val))
        return out or None

    def close_loop(self, h, base, mod, rng, n, backs, f0, isdo, depth):
        """simultaneous recurrence over the loop variables: {phi/iv term: its value when the loop stops}"""
        if isdo:
            return None
        vs, names, inits, locs = [], [], [], []
        for loc in sorted(mod, key=str):
            hv = self.read(h, loc)
            init = self.read(base, loc)
            v = hv.a[1] if hv.op == "iter" else hv
            if not (v.op in ("phi", "iv") and v.a[0] == depth):
                return None
            if hv.op == "iter":
                if init.op != "iter" or init.a[0] is not hv.a[0]:
                    return None
                init = init.a[1]
            if v in vs:
                return None
            vs.append(v)
            names.append(self.locname(loc))
            inits.append(init)
            locs.append(loc)
        if n is None and rng is not None:
            ivt = mk("iv", depth, rng.a[0], rng.a[1])
            if ivt not in vs:
                vs.append(ivt)
                names.append("$i")
                inits.append(rng.a[0])
                locs.append(None)
        sm = {v: sym("$L%d.%d" % (depth, j)) for j, v in enumerate(vs)}
        deltas = []
        for x in backs:
            if x.facts.lossy:
                return None
            deltas.append(conj([(a, v) for a, v in x.facts.d.items() if (a, v) not in f0]))
        cont = FALSE
        for d in deltas:
            cont = lor(cont, d)
        bodies = []
        for v, loc in zip(vs, locs):
            if loc is None:
                bodies.append(add(sm[v], num(1)))
                continue
            vals = []
            for x in backs:
                y = self.read(x, loc)
                if y.op == "iter":
                    if self.read(h, loc).op != "iter" or y.a[0] is not self.read(h, loc).a[0]:
                        return None
                    y = y.a[1]
                vals.append(y)
            if not vals:
                bodies.append(sm[v])
                continue
            b = vals[-1]
            for y, d in zip(reversed(vals[:-1]), reversed(deltas[:-1])):
                b = ite(d, y, b)
            bodies.append(subst(b, sm))
        cont = subst(cont, sm)
        bad = lambda t: (t.op in ("phi", "iv", "after") and t.a[0] == depth)
        if contains(cont, bad) or any(contains(b, bad) for b in bodies):
            return None
        names, inits, bodies = tuple(names), tuple(inits), tuple(bodies)
        out = {}
        for j, v in enumerate(vs):
            t = mk("loop", depth, j, names, inits, bodies, cont)
            if v in TYPES:
                TYPES[t] = TYPES[v]
            elif inits[j] in TYPES:
                TYPES[t] = TYPES[inits[j]]
            out[v] = t
        return out

    def subst_state(self, x, v, lm):
        if not lm:
            return x, v
        st = {}
        memo = {}

        def sb(t):
            return subst(t, lm, memo)

        def sp(p):
            return tuple(q if isinstance(q, str) else (q[0], tuple(sb(y) if isinstance(y, T) else y for y in q[1])) for q in p)
        for r, d in x.store.items():
            nd = {}
            for p, val in d.items():
                nd[sp(p)] = sb(val)
            st[r] = nd
        f = Facts()
        for a, b in x.facts.d.items():
            g = f.add(sb(a), b)
            f = g if g is not None else f
        f.lossy = x.facts.lossy
        if isinstance(v, T):
            v = sb(v)
        elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):
            v = (v[0], sp(v[1]))
        env = {k: ((l[0], sp(l[1])) if isinstance(l, tuple) else l) for k, l in x.env.items()}
        return St(st, f, x.trace, env), v

    def foldval(self, loc, hv, init, backs, bfacts, rng, depth):
        vals = [self.read(x, loc) for x in backs]
        if not vals:
            return init
        body = vals[-1]
        for v, f in zip(reversed(vals[:-1]), reversed(bfacts[:-1])):
            c = TRUE
            for a, b in f:
                c = land(c, nots(a, b))
            body = ite(c, v, body)
        isphi = lambda t: t.op == "phi" and t.a[0] == depth
        if rng is not None and body.op == "upd" and body.a[0] is hv and len(body.a[1]) == 1:
            ivt = mk("iv", depth, rng.a[0], rng.a[1])
            if body.a[1][0] is ivt:
                el = idx(hv, ivt)
                v = subst(body.a[2], {el: sym("$el"), ivt: sym("$i")})
                if not contains(v, isphi):
                    return mk("setrange", rng, init, v)
        others = contains(subst(body, {hv: sym("$acc")}), isphi)
        if rng is None or others or contains(body, lambda t: t.op in ("fold", "setrange", "forall")):
            return mk("after", depth, self.locname(loc), init)
        ivt = mk("iv", depth, rng.a[0], rng.a[1])
        return mk("fold", rng, init, subst(body, {hv: sym("$acc"), ivt: sym("$i")}))


def dims_in(cls):
    """dims of the matrix type named inside e.g. DenseBase<Eigen::Matrix<...>>"""
    i = cls.find("Eigen::Matrix<")
    if i < 0:
        i = cls.find("Eigen::Array<")
    return dims(cls[i:]) if i >= 0 else None


def iseig(t):
    return t.replace("const ", "").startswith("Eigen::")


_WRAP = ("Eigen::EigenBase<", "Eigen::DenseBase<", "Eigen::MatrixBase<", "Eigen::ArrayBase<", "Eigen::PlainObjectBase<",
         "Eigen::DenseCoeffsBase<")


def edims(t):
    """dims of an Eigen object type, looking through Eigen's CRTP bases"""
    t = t.replace("const ", "").strip().rstrip(" *&")
    d = dims(t)
    if d is None:
        for w in _WRAP:
            if t.startswith(w):
                return dims(t[len(w):])
    return d


_XD = {}


def xdims(t):
    """dims of an Eigen expression type (fixed sizes), None when it is not one"""
    if t in _XD:
        return _XD[t]
    _XD[t] = r = _xdims(t)
    return r


def _targs(t):
    """template name and arguments of a type string"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    out, dep, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch == "," and not dep:
            out.append(cur.strip())
            cur = ""
            continue
        dep += (ch == "<") - (ch == ">")
        cur += ch
    return t[:i], out + [cur.strip()]


def _xdims(t):
    t = t.replace("const ", "").strip().rstrip(" &")
    d = edims(t)
    if d is not None:
        return d
    n, a = _targs(t)
    n = n.split("::")[-1]
    try:
        if n == "CwiseBinaryOp":
            x, y = xdims(a[1]), xdims(a[2])
            return x if x is not None and -1 not in x else y if y is not None else x
        if n in ("CwiseUnaryOp", "CwiseNullaryOp", "CwiseUnaryView"):
            return xdims(a[1])
        if n in ("Block", "VectorBlock"):
            return (int(a[1]), int(a[2])) if n == "Block" else (int(a[1]), 1)
        if n == "Transpose":
            x = xdims(a[0])
            return x and (x[1], x[0])
        if n in ("Product", "GeneralProduct"):
            x, y = xdims(a[0]), xdims(a[1])
            return x and y and (x[0], y[1])
        if n in ("Inverse", "ArrayWrapper", "MatrixWrapper", "NoAlias", "EigenBase", "DenseBase", "MatrixBase", "ArrayBase", "PlainObjectBase", "DenseCoeffsBase", "SelfAdjointView", "TriangularView"):
            return xdims(a[0])
    except (IndexError, ValueError):
        pass
    return None


def cls_t(node):
    t = node.get("t", "").replace("const ", "")
    return t.rstrip(" *&")
