"""Value-number terms: hash-consed, lightly normalised on construction."""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "h", "id")
    _tab = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(k)
        t.id = len(T._tab)
        T._tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 12:
        return "..."
    o, a = t.op, t.a
    if o == "num":
        v = a[0]
        return str(v) if not isinstance(v, Fraction) else (str(v.numerator) if v.denominator == 1 else repr(float(v)))
    if o == "sym":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "fld":
        return f"{show(a[0], d+1)}.{a[1]}"
    if o == "deref":
        return f"*{show(a[0], d+1)}"
    if o == "cat":
        return "(" + " . ".join(show(x, d + 1) for x in a) + ")"
    if o in ("add", "mul", "lt", "le", "eq", "div", "and", "or", "mmul", "smul", "mod"):
        s = {"add": "+", "mul": "*", "lt": "<", "le": "<=", "eq": "==", "div": "/", "and": "&&",
             "or": "||", "mmul": "@", "smul": "*.", "mod": "%"}[o]
        return "(" + f" {s} ".join(show(x, d + 1) for x in a) + ")"
    if o == "not":
        return f"!{show(a[0], d+1)}"
    if o == "neg":
        return f"-{show(a[0], d+1)}"
    if o == "idx":
        return f"{show(a[0], d+1)}[{','.join(show(x, d+1) for x in a[1:])}]"
    if o == "call":
        return f"{a[0]}({','.join(show(x, d+1) for x in a[1:])})"
    return f"{o}<{','.join(show(x, d+1) for x in a)}>"


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("sym", "inf" if v > 0 else "-inf" if v < 0 else "nan")
        v = Fraction(repr(v))
    return mk("num", Fraction(v))


TRUE = num(1)
FALSE = num(0)
NULL = mk("null")


def isnum(t):
    return t.op == "num"


def sym(n):
    return mk("sym", n)


def call(f, *a):
    return mk("call", f, *a)


def contains(t, pred, _seen=None):
    if _seen is None:
        _seen = set()
    if isinstance(t, T):
        if t in _seen:
            return False
        _seen.add(t)
        if pred(t):
            return True
        return any(contains(x, pred, _seen) for x in t.a)
    if isinstance(t, tuple):
        return any(contains(x, pred, _seen) for x in t)
    return False


def subterms(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, T):
        if t in out:
            return out
        out.add(t)
        for x in t.a:
            subterms(x, out)
    elif isinstance(t, tuple):
        for x in t:
            subterms(x, out)
    return out


def subst(t, m, _memo=None):
    """Replace terms by m (dict T->T), rebuilding with the smart constructors."""
    if _memo is None:
        _memo = {}
    if isinstance(t, T):
        if t in m:
            return m[t]
        r = _memo.get(t)
        if r is None:
            na = tuple(subst(x, m, _memo) for x in t.a)
            r = t if na == t.a else rebuild(t.op, na)
            _memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, m, _memo) for x in t)
    return t


# ------------------------------------------------------------ constructors
def cat(*xs):
    """concatenation of strings, in order"""
    out = []
    for x in xs:
        for y in (x.a if x.op == "cat" else (x,)):
            if y.op == "str" and out and out[-1].op == "str":
                out[-1] = mk("str", out[-1].a[0] + y.a[0])
            elif y.op == "str" and y.a[0] == "":
                continue
            else:
                out.append(y)
    return mk("cat", *out) if len(out) > 1 else out[0] if out else mk("str", "")


def add(*xs):
    if any(x.op in ("str", "cat") for x in xs):
        return cat(*xs)
    c = Fraction(0)
    out = []
    for x in xs:
        if x.op == "add":
            out.extend(x.a)
        else:
            out.append(x)
    rest = []
    for x in out:
        if x.op == "num":
            c += x.a[0]
        else:
            rest.append(x)
    # cancel x and -x
    cnt = {}
    order = []
    for x in rest:
        s, y = (-1, x.a[0]) if x.op == "neg" else (1, x)
        if y not in cnt:
            cnt[y] = 0
            order.append(y)
        cnt[y] += s
    rest = []
    for y in order:
        n = cnt[y]
        if n == 0:
            continue
        if n == 1:
            rest.append(y)
        elif n == -1:
            rest.append(neg(y))
        else:
            rest.append(mul(num(n), y))
    rest.sort(key=lambda t: t.id)
    if c != 0:
        rest.append(num(c))
    if not rest:
        return num(0)
    if len(rest) == 1:
        return rest[0]
    return mk("add", *rest)


def neg(x):
    if x.op == "num":
        return num(-x.a[0])
    if x.op == "neg":
        return x.a[0]
    if x.op == "add":
        return add(*[neg(y) for y in x.a])
    return mk("neg", x)


def sub(a, b):
    return add(a, neg(b))


def mul(*xs):
    c = Fraction(1)
    out = []
    for x in xs:
        if x.op == "mul":
            out.extend(x.a)
        else:
            out.append(x)
    rest = []
    for x in out:
        if x.op == "num":
            c *= x.a[0]
        elif x.op == "neg":
            c = -c
            if x.a[0].op == "num":
                c *= x.a[0].a[0]
            else:
                rest.append(x.a[0])
        else:
            rest.append(x)
    if c == 0:
        return num(0)
    rest.sort(key=lambda t: t.id)
    if not rest:
        return num(c)
    if c == 1:
        return rest[0] if len(rest) == 1 else mk("mul", *rest)
    if c == -1:
        return neg(rest[0] if len(rest) == 1 else mk("mul", *rest))
    return mk("mul", num(c), *rest)


def div(a, b, integer=False):
    if integer:
        if isnum(a) and isnum(b) and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return num(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
        if isnum(b) and b.a[0] == 1:
            return a
        return mk("idiv", a, b)
    if isnum(b) and b.a[0] != 0:
        return mul(a, num(1 / b.a[0]))
    if isnum(a) and a.a[0] == 0:
        return a
    return mk("div", a, b)


def lt(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] <= b.a[0])
    if a is b:
        return TRUE
    return mk("le", a, b)


def eq(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] == b.a[0])
    if a is b:
        return TRUE
    if NULL in (a, b):
        o = b if a is NULL else a
        if o.op in ("new", "addr"):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def lnot(x):
    if x.op == "num":
        return num(x.a[0] == 0)
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def truth(x, pointer=False):
    if isbool(x):
        return x
    if x.op == "num":
        return num(x.a[0] != 0)
    if x.op == "call" and x.a[0] == "count" and len(x.a) == 3:
        return mk("has", x.a[1], x.a[2])
    return lnot(eq(x, NULL if pointer else FALSE))


BOOLOPS = {"lt", "le", "eq", "not", "and", "or", "has", "isa"}


def isbool(t):
    return t.op in BOOLOPS or (t.op == "num" and t.a[0] in (0, 1))


def land(a, b):
    if isnum(a):
        return b if a.a[0] != 0 else FALSE
    if isnum(b):
        return a if b.a[0] != 0 else FALSE
    return mk("and", a, b)


def lor(a, b):
    if isnum(a):
        return TRUE if a.a[0] != 0 else b
    if isnum(b):
        return TRUE if b.a[0] != 0 else a
    return mk("or", a, b)


def ite(c, a, b):
    if isnum(c):
        return a if c.a[0] != 0 else b
    if a is b:
        return a
    return mk("ite", c, a, b)


def proxy_positions(sel, ii, R, C):
    """flat positions, rows, cols designated by an Eigen block expression; None if unknown or outside"""
    n = sel.split("<")[0]
    try:
        targs = [int(x) for x in sel[sel.find("<") + 1:-1].split(",")] if "<" in sel else []
    except ValueError:
        targs = []
    try:
        if n == "block":
            r0, c0 = ii[0], ii[1]
            h, w = targs[:2] if len(targs) >= 2 and targs[0] > 0 else ii[2:4]
        elif n in ("head", "tail", "segment"):
            if R != 1 and C != 1:
                return None
            k = targs[0] if targs and targs[0] > 0 else ii[-1]
            s = 0 if n == "head" else R * C - k if n == "tail" else ii[0]
            if s < 0 or s + k > R * C:
                return None
            return [s + i for i in range(k)], (k if C == 1 else 1), (1 if C == 1 else k)
        elif n == "col":
            r0, c0, h, w = 0, ii[0], R, 1
        elif n == "row":
            r0, c0, h, w = ii[0], 0, 1, C
        elif n == "diagonal":
            if ii or (targs and targs[0] != 0):
                return None
            k = min(R, C)
            return [i * C + i for i in range(k)], k, 1
        elif n in ("topRows", "bottomRows", "leftCols", "rightCols"):
            k = targs[0] if targs and targs[0] > 0 else ii[-1]
            r0, c0, h, w = {"topRows": (0, 0, k, C), "bottomRows": (R - k, 0, k, C), "leftCols": (0, 0, R, k),
                            "rightCols": (0, C - k, R, k)}[n]
        elif n in ("middleRows", "middleCols"):
            k = targs[0] if targs and targs[0] > 0 else ii[1]
            r0, c0, h, w = (ii[0], 0, k, C) if n == "middleRows" else (0, ii[0], R, k)
        elif n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            h, w = targs[:2] if len(targs) >= 2 and targs[0] > 0 else ii[-2:]
            r0 = 0 if n.startswith("top") else R - h
            c0 = 0 if n.endswith("LeftCorner") else C - w
        else:
            return None
    except (IndexError, ValueError, TypeError):
        return None
    if r0 < 0 or c0 < 0 or h < 0 or w < 0 or r0 + h > R or c0 + w > C:
        return None
    return [(r0 + i) * C + c0 + j for i in range(h) for j in range(w)], h, w


def _proxy(i, R, C):
    if i and isinstance(i[0], T) and i[0].op == "str" and all(isinstance(x, T) and isnum(x) for x in i[1:]):
        return proxy_positions(i[0].a[0], [int(x.a[0]) for x in i[1:]], R, C)
    return None


def idx(c, *i):
    """element of container value c at index terms i (same i on upd -> value)"""
    while True:
        if c.op == "upd":
            if c.a[1] == i:
                return c.a[2]
            # distinct constants: look through
            if _apart(c.a[1], i):
                c = c.a[0]
                continue
        break
    if c.op == "mat":
        r, cc, el = c.a
        p = _proxy(i, r, cc)
        if p is not None:
            return mk("mat", p[1], p[2], tuple(el[k] for k in p[0]))
        if all(isinstance(x, T) and isnum(x) for x in i):
            ii = [int(x.a[0]) for x in i]
            k = ii[0] if len(ii) == 1 else ii[0] * cc + ii[1] if len(ii) == 2 else None
            if len(ii) == 1 and r != 1 and cc != 1:
                k = None
            if len(ii) == 1 and ii[0] == 0 and len(el) == 1:
                k = 0
            if k is not None and 0 <= k < len(el):
                return el[k]
    if c.op == "fill" and all(isinstance(x, T) for x in i):
        return c.a[0]
    return mk("idx", c, *i)


def upd(c, i, v):
    """container value c with element/field i (a tuple) replaced by v"""
    if c.op == "upd":
        if c.a[1] == i:
            c = c.a[0]
        elif _const(c.a[1]) and _const(i) and _ck(c.a[1]) > _ck(i) and _apart(c.a[1], i):
            return upd(upd(c.a[0], i, v), c.a[1], c.a[2])
    if c.op == "mat" and _const(i) and not isinstance(i[0], str):
        r, cc, el = c.a
        p = _proxy(i, r, cc)
        if p is not None:
            e2 = list(el)
            for n, k in enumerate(p[0]):
                e2[k] = v.a[2][n] if v.op == "mat" and len(v.a[2]) == len(p[0]) else v.a[0] if v.op == "fill" else \
                    idx(v, num(n // p[2]), num(n % p[2])) if p[1] > 1 and p[2] > 1 else idx(v, num(n))
            return mk("mat", r, cc, tuple(e2))
        if not all(isnum(x) for x in i):
            return mk("upd", c, i, v)
        ii = [int(x.a[0]) for x in i]
        k = None
        if len(ii) == 1 and (r == 1 or cc == 1):
            k = ii[0]
        elif len(ii) == 2 and ii[1] < cc:
            k = ii[0] * cc + ii[1]
        if k is not None and 0 <= k < len(el):
            return mk("mat", r, cc, el[:k] + (v,) + el[k + 1:])
    if c.op == "rec" and len(i) == 1 and isinstance(i[0], str):
        d = dict(c.a[1])
        d[i[0]] = v
        return mk("rec", c.a[0], tuple(sorted(d.items())))
    return mk("upd", c, i, v)


def _interval(i):
    """elements [lo, hi) a constant one-dimensional key designates"""
    if len(i) == 1 and isinstance(i[0], T) and isnum(i[0]):
        return int(i[0].a[0]), int(i[0].a[0]) + 1
    if i and isinstance(i[0], T) and i[0].op == "str" and all(isinstance(x, T) and isnum(x) for x in i[1:]):
        n = i[0].a[0].split("<")[0]
        v = [int(x.a[0]) for x in i[1:]]
        if n == "segment" and len(v) == 2:
            return v[0], v[0] + v[1]
        if n == "head" and len(v) == 1:
            return 0, v[0]
    return None


def _apart(i, j):
    """do the keys designate disjoint elements whatever the size of the container?"""
    if not i or not j:
        return False
    if isinstance(i[0], str) or isinstance(j[0], str):
        return isinstance(i[0], str) and isinstance(j[0], str) and i[0] != j[0]
    if i[0].op == "str" or j[0].op == "str":
        a, b = _interval(i), _interval(j)
        return a is not None and b is not None and (a[1] <= b[0] or b[1] <= a[0])
    return len(i) == len(j) and any(isinstance(x, T) and isinstance(y, T) and isnum(x) and isnum(y) and x is not y for x, y in zip(i, j))


def _const(i):
    return all(isinstance(x, str) or (isinstance(x, T) and x.op in ("num", "str")) for x in i)


def _ck(i):
    return tuple(str(x) if isinstance(x, str) else (f"{float(x.a[0]):030.6f}" if x.op == "num" else x.a[0]) for x in i)


def fld(b, n):
    if b.op == "rec":
        for f, v in b.a[1]:
            if f == n:
                return v
    if b.op == "idx" and len(b.a) == 2 and isinstance(b.a[1], T) and b.a[1].op == "find":
        if n == "second":
            return idx(b.a[0], b.a[1].a[1])
        if n == "first":
            return b.a[1].a[1]
    if b.op == "ite":
        return ite(b.a[0], fld(b.a[1], n), fld(b.a[2], n))
    if b.op == "upd" and b.a[1] == (n,):
        return b.a[2]
    if b.op == "upd" and len(b.a[1]) == 1 and isinstance(b.a[1][0], str):
        return fld(b.a[0], n)
    return mk("fld", b, n)


REB = {"add": add, "cat": cat, "mul": mul, "neg": neg, "lt": lt, "le": le, "eq": eq, "not": lnot, "and": land, "or": lor,
       "ite": ite, "upd": upd, "idx": idx, "fld": fld, "div": div}


def rebuild(op, a):
    f = REB.get(op)
    return f(*a) if f else mk(op, *a)


def nots(x, b):
    return x if b else lnot(x)
