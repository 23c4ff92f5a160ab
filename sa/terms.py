"""Value-graph domain of the analyser.

Every abstract value is a hash-consed term.  A value that depends on a condition is a
gated value (a multi-terminal decision diagram: ``ite`` nodes over *atoms*, leaves are
plain terms).  Arithmetic is kept in polynomial normal form, order comparisons in
``gt0(p)`` / ``eq0(p)`` atoms over normalised polynomials, so that two expressions that
compute the same value in a different way get the same term.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)


_TAB = {}
_N = [0]


def _k(a):
    if isinstance(a, T):
        return a.id
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _N[0] += 1
        t.id = _N[0]
        _TAB[key] = t
    return t


NONE = mk("const", None)
TRUE = mk("const", True)
FALSE = mk("const", False)
UNDEF = mk("undef")


def err(what="error"):
    return mk("err", what)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, float):
        return mk("num", Fraction(repr(v))) if v == v and abs(v) != float("inf") else mk("const", repr(v))
    return mk("const", v)


ZERO = const(0)
ONE = const(1)


def is_ite(t):
    return t.op == "ite"


def boolc(b):
    return TRUE if b else FALSE


# --------------------------------------------------------------------------- ITE
_ITE = {}


def ite(c, t, e):
    """c is a boolean diagram, t and e are values."""
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    key = (c.id, t.id, e.id)
    r = _ITE.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        raise ValueError("condition is not a diagram: %r" % (c,))
    a = c.args[0]
    for x in (t, e):
        if x.op == "ite" and x.args[0].id < a.id:
            a = x.args[0]
    c1, c0 = _cof(c, a)
    t1, t0 = _cof(t, a)
    e1, e0 = _cof(e, a)
    hi, lo = ite(c1, t1, e1), ite(c0, t0, e0)
    r = hi if hi is lo else mk("ite", a, hi, lo)
    _ITE[key] = r
    return r


def _cof(v, a):
    if v.op == "ite" and v.args[0] is a:
        return v.args[1], v.args[2]
    return v, v


def atomv(a):
    return mk("ite", a, TRUE, FALSE)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def IFF(a, b):
    return ite(a, b, NOT(b))


def lift(f, *vs):
    """Apply f to the leaves of gated values; f returns a value (possibly gated)."""
    memo = {}

    def go(args):
        key = tuple(x.id for x in args)
        r = memo.get(key)
        if r is not None:
            return r
        a = None
        for x in args:
            if x.op == "ite" and (a is None or x.args[0].id < a.id):
                a = x.args[0]
        if a is None:
            r = f(*args)
        else:
            hi = go(tuple(_cof(x, a)[0] for x in args))
            lo = go(tuple(_cof(x, a)[1] for x in args))
            r = ite(atomv(a), hi, lo)
        memo[key] = r
        return r

    return go(tuple(vs))


def leaves(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


def atoms(v):
    out, seen, st = {}, set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            out[x.args[0].id] = x.args[0]
            st.append(x.args[2])
            st.append(x.args[1])
    return [out[k] for k in sorted(out)]


_RES = {}


def restrict(f, c):
    """Simplify f using the care set c (Coudert-Madre restrict)."""
    if c is TRUE or c is FALSE or f.op != "ite":
        return f
    key = (f.id, c.id)
    r = _RES.get(key)
    if r is not None:
        return r
    a, b = f.args[0], c.args[0]
    if b.id < a.id:
        # drop b from c
        hi, lo = c.args[1], c.args[2]
        if hi is FALSE:
            r = restrict(f, lo)
        elif lo is FALSE:
            r = restrict(f, hi)
        else:
            r = restrict(f, OR(hi, lo))
    else:
        c1, c0 = _cof(c, a)
        if c1 is FALSE:
            r = restrict(f.args[2], c0)
        elif c0 is FALSE:
            r = restrict(f.args[1], c1)
        else:
            hi, lo = restrict(f.args[1], c1), restrict(f.args[2], c0)
            r = hi if hi is lo else ite(atomv(a), hi, lo)
    _RES[key] = r
    return r


# --------------------------------------------------------------------------- types
ANY = ("any",)
NUM = ("num",)
INT = ("int",)
FLOAT = ("float",)
BOOL = ("bool",)
STR = ("str",)
DT = ("dt",)
DATE = ("date",)
TIME = ("time",)


def opt(t):
    return t if t[0] in ("opt", "any") else ("opt", t)


def unopt(t):
    return t[1] if t[0] == "opt" else t


FIELD_TYPES = {}  # hook: function(cls, field) -> type, set by program
_HOOK = {"field": lambda cls, f: ANY}

APP_TYPES = {
    "dt.date": DATE, "dt.time": TIME, "dt.to": DT, "dt.shift": DT, "dt.replace": DT,
    "dt.weekday": INT, "dt.isoweekday": INT, "dt.timestamp": NUM, "len": INT, "mod": NUM, "floordiv": NUM,
    "round": NUM, "float": FLOAT, "int": INT, "str": STR, "fmt": STR, "inv": NUM,
    "arrow.utcnow": DT, "arrow.get": DT, "uuid4": ANY, "uuid.hex": STR, "strslice": STR, "dt.strftime": STR, "dt.text": STR,
    "dt.format": STR, "dt.isoformat": STR, "concat": STR, "strm": STR, "intpart": INT,
    "haskey": BOOL, "isinst": BOOL, "truthy": BOOL, "isnone": BOOL, "eq": BOOL,
    "in": BOOL, "any": BOOL, "hasattr": BOOL, "istype": BOOL, "pos": INT,
}


def typeof(t):
    op, a = t.op, t.args
    if op == "sym":
        return a[1]
    if op in ("num", "poly"):
        if op == "num":
            return INT if a[0].denominator == 1 else NUM
        ts = set()
        for mono, c in a:
            if c.denominator != 1:
                ts.add(NUM)
            for v, e in mono:
                tv = unopt(typeof(v))
                if tv in (DT, TIME, DATE):
                    return tv
                if e < 0:
                    ts.add(NUM)
                ts.add(tv)
        return INT if ts <= {INT} else NUM
    if op == "const":
        v = a[0]
        return BOOL if isinstance(v, bool) else STR if isinstance(v, str) else ("none",) if v is None else ANY
    if op == "attr":
        bt = unopt(typeof(a[0]))
        if bt[0] == "obj":
            return _HOOK["field"](bt[1], a[1])
        if bt in (DT, TIME, DATE, ("pydt",)) and a[1] in ("year", "month", "day", "hour", "minute", "second", "microsecond", "timestamp"):
            return INT
        return ANY
    if op == "new":
        return ("list", ANY) if a[0] == "list" else ("dict", ANY, ANY) if a[0] == "dict" else ("obj", a[0])
    if op in ("elem", "first", "idx"):
        if op == "elem":
            return a[2]
        if op == "first":
            return a[3]
        st = typeof(a[0])
        return st[1] if st[0] in ("list", "seq") else ANY
    if op == "bv":
        return a[1]
    if op in ("carry", "cv"):
        return a[2]
    if op in ("fold", "foldelem"):
        return a[0]
    if op == "sum":
        return NUM if not (typeof_leaves_int(a[1])) else INT
    if op == "seqof":
        ty = unopt(typeof(a[0]))
        return ("seq", ty[1]) if ty[0] == "list" else ("seq", ANY)
    if op == "mapof":
        ty = unopt(typeof(a[0]))
        return ty if ty[0] == "dict" else ("dict", ANY, ANY)
    if op == "rev":
        return typeof(a[0])
    if op in ("takewhile", "opq", "sorted", "drop", "take"):
        return typeof(a[0])
    if op == "keys":
        ty = unopt(typeof(a[0]))
        return ("seq", ty[1]) if ty[0] == "dict" else ("seq", ANY)
    if op == "slice":
        return typeof(a[0])
    if op == "range":
        return ("seq", INT)
    if op == "val":
        ty = typeof(a[0])
        return ty[2] if ty[0] == "dict" else ANY
    if op == "enum":
        return ("enum", a[0])
    if op == "ret":
        return a[1]
    if op == "seq":
        for s in a:
            if s.op == "opq":
                return ("seq", typeof(s.args[0])[1] if typeof(s.args[0])[0] in ("seq", "list") else ANY)
            if s.op == "item" and s.args[0].op != "ite":
                return ("seq", typeof(s.args[0]))
        return ("seq", ANY)
    if op == "app":
        if a[0] in ("mod", "floordiv") and typeof(a[1]) == INT and typeof(a[2]) == INT:
            return INT
        return APP_TYPES.get(a[0], ANY)
    if op in ("gt0", "eq0"):
        return BOOL
    if op == "str":
        return STR
    return ANY


def typeof_leaves_int(v):
    return all(typeof(x) == INT for x in leaves(v))


def is_numeric(t):
    return t.op in ("num", "poly") or unopt(typeof(t))[0] in ("num", "int", "float")


# --------------------------------------------------------------------------- polys
def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return {m: c for m, c in t.args}
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: tuple((v.id, e) for v, e in mc[0]))
    return mk("poly", *[(m, c) for m, c in items])


def padd(a, b, s=1):
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return from_poly(d)


def _mmul(m1, m2):
    d = {}
    for v, e in m1 + m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(((v, e) for v, e in d.items() if e), key=lambda x: x[0].id))


def pmul(a, b):
    d = {}
    red = []
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m = _mmul(m1, m2)
            r = _undivide(m, c1 * c2) if any(v.op == "app" and v.args[0] == "floordiv" for v, _ in m) else None
            if r is not None:
                red.append(r)
                continue
            d[m] = d.get(m, 0) + c1 * c2
    out = from_poly(d)
    for r in red:
        out = padd(out, r)
    return out


def _undivide(m, c):
    """(a // b) * b is a - a % b"""
    for v, e in m:
        if e == 1 and v.op == "app" and v.args[0] == "floordiv":
            x, y = v.args[1:3]
            rest = [(w, f) for w, f in m if w is not v]
            if y.op == "num":
                if y.args[0] == 0 or (c / y.args[0]).denominator != 1:
                    continue
                k = c / y.args[0]
            else:
                if not any(w is y and f >= 1 for w, f in rest):
                    continue
                rest = [(w, f - 1 if w is y else f) for w, f in rest if w is not y or f > 1]
                k = c
            return pmul(from_poly({tuple(rest): k}), padd(x, mk("app", "mod", x, y), -1))
    return None


def pinv(b):
    p = to_poly(b)
    if not p:
        return err("ZeroDivisionError")
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((v, -e) for v, e in m): 1 / c})
    lead = lead_coef(b)
    q = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((q, -1),): 1 / lead})


def lead_coef(t):
    if t.op == "poly":
        nz = [(m, c) for m, c in t.args if m != ()]
        return max(nz, key=lambda mc: tuple((v.id, e) for v, e in mc[0]))[1]
    return t.args[0] if t.op == "num" else Fraction(1)


def leaf_num(t):
    return t.op not in ("const", "enum", "seq", "tuple", "undef", "err", "class", "func", "str", "exc", "dict")


def arith(op, x, y):
    def f(a, b):
        if a.op == "err" or b.op == "err":
            return a if a.op == "err" else b
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        if op == "+":
            if a.op == "seq" and b.op == "seq":
                return mkseq(a.args + b.args)
            if STR in (typeof(a), typeof(b)):
                return mkstr([a, b])
        if op == "*" and a.op == "seq" and b.op == "num":
            return mkseq(a.args * int(b.args[0]))
        if op == "%" and typeof(a) == STR:
            return mk("app", "strfmt", a, b)
        a, b = _boolnum(a), _boolnum(b)
        if not leaf_num(a) or not leaf_num(b):
            return err("TypeError")
        if op == "+":
            return padd(a, b)
        if op == "-":
            return padd(a, b, -1)
        if op == "*":
            return pmul(a, b)
        if op == "/":
            i = pinv(b)
            return i if i.op == "err" else pmul(a, i)
        if op == "//":
            if a.op == b.op == "num" and b.args[0]:
                return mk("num", Fraction(a.args[0] // b.args[0]))
            return mk("app", "floordiv", a, b)
        if op == "%":
            if a.op == b.op == "num" and b.args[0]:
                return mk("num", Fraction(a.args[0] % b.args[0]))
            if b is ONE and typeof(a) == INT:
                return ZERO
            return mk("app", "mod", a, b)
        if op == "**":
            if b.op == "num" and b.args[0].denominator == 1 and 0 <= b.args[0] <= 6:
                r = ONE
                for _ in range(int(b.args[0])):
                    r = pmul(r, a)
                return r
            return mk("app", "pow", a, b)
        return mk("app", "op" + op, a, b)

    return lift(f, x, y)


def _boolnum(a):
    if a is TRUE:
        return ONE
    if a is FALSE:
        return ZERO
    return a


def neg(x):
    return arith("-", ZERO, x)


# --------------------------------------------------------------------------- strings
def mkstr(parts):
    out = []
    for p in parts:
        if p.op == "str":
            out.extend(p.args)
        else:
            out.append(p)
    r = []
    for p in out:
        if p.op == "const" and isinstance(p.args[0], str):
            if r and r[-1].op == "const":
                r[-1] = mk("const", r[-1].args[0] + p.args[0])
                continue
            if p.args[0] == "":
                continue
        r.append(p)
    if not r:
        return const("")
    if len(r) == 1 and (r[0].op == "const" or typeof(r[0]) == STR):
        return r[0]
    return mk("str", *r)


# --------------------------------------------------------------------------- sequences
def mkseq(segs):
    return mk("seq", *segs)


EMPTY = mk("seq")


def item(v):
    return mk("item", v)


def opq(s):
    """sequence term (seqof, rev, keys, ...) as a sequence value"""
    if s.op == "seq":
        return s
    if s.op == "emptyc":
        return EMPTY
    return mkseq((mk("opq", s),))


def seg_len(s):
    if s.op == "item":
        return ONE
    if s.op == "opq":
        return coll_len(s.args[0])
    if s.op == "map":
        return mksum(s.args[0], seq_len(s.args[1]), s.args[2])
    return mk("app", "len", s)


def coll_len(c):
    if c.op == "rev" or c.op == "sorted":
        return coll_len(c.args[0])
    if c.op == "emptyc":
        return ZERO
    if c.op == "seq":
        return seq_len(c)
    if c.op == "keys":
        return mk("app", "len", c.args[0])
    if c.op == "range":
        return ite(gt(c.args[0], ZERO), c.args[0], ZERO)
    if c.op == "drop":
        return arith("-", coll_len(c.args[0]), c.args[1])
    if c.op == "take":
        return c.args[1]
    return mk("app", "len", c)


def seq_len(v):
    def f(s):
        if s.op in ("undef", "err"):
            return s
        if s.op != "seq":
            return mk("app", "len", s)
        r = ZERO
        for x in s.args:
            r = arith("+", r, seg_len(x))
        return r

    return lift(f, v)


def rev_seq(v):
    def g(seg):
        if seg.op == "opq":
            c = seg.args[0]
            return mk("opq", mkrev(c))
        if seg.op == "map":
            c = seg.args[0]
            c2 = mkrev(c)
            body = rev_seq(seg.args[1])
            return mk("map", c2, body, seg.args[2])
        return seg

    def f(s):
        if s.op != "seq":
            return s
        return mkseq(tuple(g(x) for x in reversed(s.args)))

    return lift(f, v)


def mapseq(c, body, bv):
    """sequence value: concatenation of body (a gated sequence) for each element of c"""
    if c is EMPTYC or body is EMPTY:
        return EMPTY
    if c.op == "seq":
        r = EMPTY
        for s in c.args:
            if s.op == "item":
                r = concat(r, subst(body, {bv: s.args[0]}))
            elif s.op == "opq":
                r = concat(r, mapseq(s.args[0], body, bv))
            else:
                return mkseq((mk("map", c, body, bv),))
        return r
    if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "item" and body.args[0].args[0] is bv:
        return opq(c)
    return mkseq((mk("map", c, body, bv),))


def mkrev(c):
    return c.args[0] if c.op == "rev" else mk("rev", c)


EMPTYC = mk("emptyc")


def mksum(coll, body, bv):
    """sum over the elements bv of coll of body."""
    while coll.op in ("rev", "sorted"):
        coll = coll.args[0]
    if coll is EMPTYC:
        return ZERO
    if body.op == "num":
        return arith("*", body, coll_len(coll))
    if body.op != "ite":
        # factor rational coefficient out of a single monomial
        p = to_poly(body)
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1:
                return pmul(const_fr(c), mk("sum", coll, from_poly({m: Fraction(1)}), bv))
            if m == ():
                return coll_len(coll)
        elif p:
            r = ZERO
            for m, c in p.items():
                r = arith("+", r, mksum(coll, from_poly({m: c}), bv))
            return r
    return mk("sum", coll, body, bv)


def mkany(coll, g, bv):
    """does some element bv of coll satisfy the diagram g (boolean value)"""
    while coll.op in ("rev", "sorted"):
        coll = coll.args[0]
    if g is FALSE or coll is EMPTYC:
        return FALSE
    if g is TRUE:
        return gt(coll_len(coll), ZERO)
    return atomv(mk("app", "any", coll, g, bv))


def mkfirst(coll, g, bv, ty):
    if g is TRUE:
        return mkidx(coll, ZERO)
    return mk("first", coll, g, bv, ty)


def mkidx(coll, k):
    if coll.op == "rev":
        return mkidx(coll.args[0], padd(padd(coll_len_t(coll.args[0]), ONE, -1), k, -1))
    if coll.op == "drop" :
        return mkidx(coll.args[0], padd(coll.args[1], k))
    return mk("idx", coll, k)


def coll_len_t(c):
    """length as a plain (not gated) term"""
    while c.op in ("rev", "sorted"):
        c = c.args[0]
    l = coll_len(c)
    return l if l.op != "ite" else mk("app", "len", c)


def mktakewhile(coll, g, bv):
    if coll is EMPTYC or g is FALSE:
        return EMPTYC
    if g is TRUE:
        return coll
    return mk("takewhile", coll, g, bv)


def mkdrop(coll, k):
    """coll without its first k elements; the caller guarantees 0 <= k <= len"""
    if k is ZERO:
        return coll
    if coll.op == "drop":
        return mkdrop(coll.args[0], padd(coll.args[1], k))
    return mk("drop", coll, k)


def mktake(coll, k):
    """first k elements; the caller guarantees 0 <= k <= len"""
    if k is ZERO:
        return EMPTYC
    return mk("take", coll, k)


def const_fr(c):
    return mk("num", Fraction(c))


# --------------------------------------------------------------------------- compare
def strip_value(t):
    """drop value-preserving conversions (same instant / same number) in a comparison"""
    while t.op == "app" and t.args[0] in ("dt.to", "float") and t.args[1].op not in ("const",):
        t = t.args[1]
    if t.op == "poly":
        d = {}
        for m, c in t.args:
            m2 = ()
            for v, e in m:
                w = strip_value(v) if e == 1 else v
                if w.op in ("poly", "num"):
                    w = v
                m2 = _mmul(m2, ((w, e),))
            d[m2] = d.get(m2, 0) + c
        return from_poly(d)
    return t


def _norm_cmp(p):
    """p -> (q, sign) with q normalised and p = positive * sign * q; constants -> number"""
    if p.op == "num":
        return p, 1
    lc = lead_coef(p)
    d = to_poly(p)
    s = 1 if lc > 0 else -1
    q = from_poly({m: c / abs(lc) * s for m, c in d.items()})
    # clear denominators
    dd = to_poly(q)
    den = 1
    for c in dd.values():
        den = den * c.denominator // _gcd(den, c.denominator)
    q = from_poly({m: c * den for m, c in dd.items()})
    return q, s


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _gt0(p):
    if p.op == "num":
        return boolc(p.args[0] > 0)
    if p.op == "app" and p.args[0] == "len":
        pass
    q, s = _norm_cmp(p)
    if typeof(q) == INT:
        # integers: tighten, single atom form  q >= 1  /  -q >= 1
        q0, c0 = _split_const(q)
        if s > 0:
            return atomv(_mkgt(q))
        # -q > 0  <=> q < 0 <=> not (q >= 0) <=> not (q + 1 > 0)
        return NOT(atomv(_mkgt(padd(q, ONE))))
    g, e = _mkgt(q), _mkeq(q)
    if s > 0:
        return atomv(g)
    return AND(NOT(atomv(g)), NOT(atomv(e)))


def _split_const(q):
    d = to_poly(q)
    c = d.get((), Fraction(0))
    return from_poly({m: v for m, v in d.items() if m != ()}), c


def _mkgt(q):
    g = mk("gt0", q)
    if typeof(q) != INT:
        mk("eq0", q)
    return g


def _mkeq(q):
    mk("gt0", q)
    return mk("eq0", q)


def _eq0(p):
    if p.op == "num":
        return boolc(p.args[0] == 0)
    if p.op == "app" and p.args[0] == "len":
        return NOT(_gt0(p))
    if p.op == "app" and p.args[0] == "mod" and p.args[1] in (ONE, mk("num", Fraction(-1))) and typeof(p.args[2]) == INT:
        return OR(_eq0(padd(p.args[2], ONE, -1)), _eq0(padd(p.args[2], ONE)))
    q, s = _norm_cmp(p)
    if q.op == "app" and q.args[0] == "len":
        return NOT(_gt0(q))
    return atomv(_mkeq(q))


def _diff(a, b):
    a, b = _boolnum(a), _boolnum(b)
    if not leaf_num(a) or not leaf_num(b):
        return None
    return padd(strip_value(a), strip_value(b), -1)


def gt(x, y):
    def f(a, b):
        if "err" in (a.op, b.op) or "undef" in (a.op, b.op):
            return err("TypeError")
        if a.op == "tuple" and b.op == "tuple":
            r = boolc(len(a.args) > len(b.args))
            for p, q in reversed(list(zip(a.args, b.args))):
                r = lift3(to_bool(eq(p, q)), r, gt(p, q))
            return r
        d = _diff(a, b)
        if d is None:
            if a.op == b.op == "const" and type(a.args[0]) is type(b.args[0]) and a.args[0] is not None:
                return boolc(a.args[0] > b.args[0])
            return err("TypeError")
        return _gt0(d)

    return lift(f, x, y)


def ge(x, y):
    return NOT2(gt(y, x))


def NOT2(c):
    return lift(lambda l: FALSE if l is TRUE else TRUE if l is FALSE else l, c)


def isnone(x):
    def f(a):
        if a is NONE:
            return TRUE
        if a.op in ("undef", "err"):
            return FALSE
        if a.op in ("const", "num", "poly", "new", "enum", "seq", "tuple", "str", "class", "func", "meth", "dict", "elem") and not (
            a.op == "elem" and typeof(a)[0] in ("opt", "any")
        ):
            return FALSE
        ty = typeof(a)
        if ty[0] in ("opt", "any"):
            if a.op == "app" and a.args[0] not in ("getattr",):
                return FALSE
            return atomv(mk("app", "isnone", a))
        return FALSE

    return lift(f, x)


def nonempty_text(t):
    """texts made of a unique identifier (36 characters, 32 without dashes)"""
    if t.op == "str":
        return any(nonempty_text(x) for x in t.args)
    if t.op != "app":
        return False
    if t.args[0] in ("str", "repr") and t.args[1].op == "app" and t.args[1].args[0] == "uuid4" or t.args[0] == "uuid.hex":
        return True
    if t.args[0] == "strslice" and nonempty_text(t.args[1]):
        lo, hi = [None if x is NONE else x.args[0] if x.op == "num" else "?" for x in t.args[2:4]]
        return lo != "?" and hi != "?" and (lo or 0) in range(0, 30) and (hi is None or hi > (lo or 0))
    return False


def eq(x, y):
    """Python == (object identity for classes without __eq__)."""

    def f(a, b):
        if a is b:
            return TRUE
        if a.op in ("err", "undef") or b.op in ("err", "undef"):
            return FALSE
        if a is NONE:
            return isnone(b)
        if b is NONE:
            return isnone(a)
        if a.op == "seq" or b.op == "seq":
            if b is EMPTY:
                return NOT(truth(a))
            if a is EMPTY:
                return NOT(truth(b))
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for p, q in zip(a.args, b.args):
                r = AND(r, eq(p, q))
            return r
        if a.op in ("ext", "class") and b.op in ("ext", "class") and all(
                x.op == "class" or x.args[0].startswith("exc.") for x in (a, b)):
            return FALSE
        if (a.op in ("const", "enum", "class") and b.op in ("const", "enum", "class")):
            if a.op == "const" and b.op == "const" and isinstance(a.args[0], bool) != isinstance(b.args[0], bool):
                return FALSE
            return FALSE
        if typeof(a) == BOOL and typeof(b) == BOOL:
            return IFF(to_bool(a), to_bool(b))
        if is_numeric(a) or is_numeric(b) or typeof(a) in (DT, TIME, DATE) or typeof(b) in (DT, TIME, DATE):
            if (a.op in ("const", "enum") and a not in (TRUE, FALSE)) or (b.op in ("const", "enum") and b not in (TRUE, FALSE)):
                return FALSE
            d = _diff(a, b)
            if d is None:
                return FALSE
            return _eq0(d)
        if a.op == "new" and b.op == "new":
            return FALSE
        if (a.op == "new") != (b.op == "new"):
            o = b if a.op == "new" else a
            if o.op in ("sym", "attr", "elem", "idx", "val", "seqof", "const", "enum"):
                return FALSE
        if a.op == "idx" and b.op == "idx" and a.args[0] is b.args[0] and a.args[0].op == "keys":
            return eq(a.args[1], b.args[1])
        if a is const("") and nonempty_text(b) or b is const("") and nonempty_text(a):
            return FALSE
        ta, tb = unopt(typeof(a)), unopt(typeof(b))
        if ta[0] == "obj" and tb[0] == "obj" and not _HOOK.get("related", lambda p, q: True)(ta[1], tb[1]):
            return FALSE
        p, q = (a, b) if a.id < b.id else (b, a)
        return atomv(mk("app", "eq", p, q))

    return lift(f, x, y)


def truth(x):
    def f(a):
        if a.op == "const":
            return boolc(bool(a.args[0]))
        if a.op == "num":
            return boolc(a.args[0] != 0)
        if a.op in ("err",):
            return a
        if a.op == "undef":
            return FALSE
        if a.op == "seq":
            if any(s.op == "item" for s in a.args):
                return TRUE
            if not a.args:
                return FALSE
            return gt(seq_len(a), ZERO)
        if a.op == "dict":
            if a.args[1] and all(l is not UNDEF for l in leaves(a.args[1][-1][1])):
                return TRUE
            if not a.args[1]:
                return FALSE if a.args[0] is NONE else gt(mk("app", "len", a.args[0]), ZERO)
            return to_bool(gt(d_len(a), ZERO))
        if a.op == "tuple":
            return boolc(bool(a.args))
        if a.op == "str":
            if any(s.op == "const" and s.args[0] for s in a.args):
                return TRUE
        if a.op in ("enum", "class", "func", "meth", "exc") or a.op == "app" and a.args[0] == "uuid4":
            return TRUE
        ty = typeof(a)
        n = FALSE
        if ty[0] == "opt":
            n = isnone(a)
            ty = ty[1]
        k = ty[0]
        if k in ("obj", "dt", "date", "time", "enum"):
            return NOT(n)
        if k in ("num", "int", "float"):
            return AND(NOT(n), NOT(_eq0(strip_value(a))))
        if k == "bool":
            return AND(NOT(n), atomv(a))
        if k in ("seq",):
            return gt(coll_len(a), ZERO)
        if k == "str":
            return AND(NOT(n), NOT(eq(a, const(""))))
        return AND(NOT(n), atomv(mk("app", "truthy", a)))

    return lift(f, x)


def rnd(x, n):
    def f(a, k):
        if a.op in ("err", "undef"):
            return a
        a = _boolnum(a)
        if a.op == "num" and k.op == "num":
            return mk("num", Fraction(repr(round(float(a.args[0]), int(k.args[0])))))
        if not leaf_num(a):
            return err("TypeError")
        if typeof(a) == INT:
            return a
        if a.op == "app" and a.args[0] == "round" and a.args[2] is k:
            return a
        lc = lead_coef(a)
        if lc < 0:
            return padd(ZERO, f(padd(ZERO, a, -1), k), -1)
        # round(round(u,k) * -1) etc: a pure sum of already rounded terms is left as is
        return mk("app", "round", a, k)

    return lift(f, x, n)


def absv(x):
    return ite_v(gt(x, ZERO), x, neg(x))


def ite_v(c, t, e):
    """c may contain err leaves"""
    bad = [l for l in leaves(c) if l not in (TRUE, FALSE)]
    if bad:
        return lift(lambda l: l, lift3(c, t, e))
    return ite(c, t, e)


def lift3(c, t, e):
    def f(l, a, b):
        return a if l is TRUE else b if l is FALSE else l

    return lift(f, c, t, e)


# --------------------------------------------------------------------------- printing
def show(t, d=0):
    op, a = t.op, t.args
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    if op == "const":
        return repr(a[0])
    if op == "num":
        return str(a[0]) if a[0].denominator == 1 else str(float(a[0])) if a[0].denominator in (2, 4, 5, 10, 100) else str(a[0])
    if op == "sym":
        return a[0]
    if op == "attr":
        return s(a[0]) + "." + a[1]
    if op == "poly":
        out = []
        for m, c in a:
            body = "*".join(s(v) + ("" if e == 1 else "^%d" % e) for v, e in m)
            if not body:
                out.append("%+g" % float(c))
            else:
                out.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else "%s*" % abs(c)) + body)
        return "(" + "".join(out).lstrip("+") + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "gt0":
        return "%s > 0" % s(a[0])
    if op == "eq0":
        return "%s == 0" % s(a[0])
    if op == "app":
        if a[0] == "isnone":
            return "%s is None" % s(a[1])
        if a[0] == "eq":
            return "%s == %s" % (s(a[1]), s(a[2]))
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]))
    if op == "new":
        return "new %s#%s" % (a[0], a[1])
    if op == "enum":
        return "%s.%s" % (a[0], a[1])
    if op == "elem":
        return "each(%s)" % s(a[0])
    if op == "bv":
        return "x%d" % a[0]
    if op in ("carry", "cv"):
        return "acc%s" % a[1]
    if op == "seqof" or op == "mapof":
        return s(a[0])
    if op == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "item":
        return s(a[0])
    if op == "opq":
        return "*" + s(a[0])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "val":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "meth":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "ret":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[2:] if isinstance(x, T)))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))


# --------------------------------------------------------------------------- dict values
def mkdict(base, ups=()):
    """dict value: base (NONE = empty, or a mapping term) updated in order by (key, value) pairs;
    value undef = deleted"""
    out = []
    for k, v in ups:
        at = next((i for i, (a, b) in enumerate(out) if a is k), None)
        if at is not None and out[at][1] is not UNDEF and v is not UNDEF and all(eq(a, k) is FALSE for a, b in out[at + 1:]):
            out[at] = (k, v)        # the key keeps its place
            continue
        out = [(a, b) for a, b in out if a is not k]
        if v is UNDEF and base is NONE and all(eq(a, k) is FALSE for a, b in out):
            continue
        out.append((k, v))
    return mk("dict", base, tuple(out))


EMPTYD = mkdict(NONE)


def _base_haskey(m, k):
    if m is NONE:
        return FALSE
    if m.op == "dict":
        return d_haskey(m, k)
    if m.op == "dmap":
        init, C, bv, cond, key, val = m.args
        o = d_haskey(init, k)
        if key is bv and C.op == "keys":
            here = AND(_base_haskey(C.args[0], k), to_bool(subst(cond, {bv: k})))
        else:
            here = mkany(C, AND(to_bool(cond), eq(key, k)), bv)
        return OR(here, o)
    if k.op in ("elem", "first", "idx", "bv", "foldelem"):
        c = k.args[0] if k.op in ("elem", "first", "idx") else k.args[1] if k.op == "foldelem" else None
        while c is not None and c.op in ("rev", "takewhile", "sorted", "drop", "take"):
            c = c.args[0]
        if c is not None and c.op == "keys" and c.args[0] is m:
            return TRUE
    return atomv(mk("app", "haskey", m, k))


def _base_val(m, k):
    if m is NONE:
        return UNDEF
    if m.op == "dict":
        return d_val(m, k)
    if m.op == "dmap":
        init, C, bv, cond, key, val = m.args
        o = d_val(init, k)
        if key is bv and C.op == "keys":
            here = AND(_base_haskey(C.args[0], k), to_bool(subst(cond, {bv: k})))
            return ite(here, subst(val, {bv: k}), o)
        g = AND(to_bool(cond), eq(key, k))
        here = mkany(C, g, bv)
        return ite(here, subst(val, {bv: mk("first", mkrev(C), g, bv, typeof(bv))}), o)
    return mk("val", m, k)


def d_haskey(d, key):
    def f(d, k):
        if d.op != "dict":
            return _base_haskey(d, k)
        r = _base_haskey(d.args[0], k)
        for a, b in d.args[1]:
            e = eq(a, k)
            r = ite(e, lift(lambda x: FALSE if x is UNDEF else TRUE, b), r)
        return r

    return lift(f, d, key)


def d_val(d, key):
    """value at key (meaningful when d_haskey)"""
    def f(d, k):
        if d.op != "dict":
            return _base_val(d, k)
        r = _base_val(d.args[0], k)
        for a, b in d.args[1]:
            r = ite(eq(a, k), b, r)
        return r

    return lift(f, d, key)


def d_len(d):
    if d.op != "dict":
        return mk("app", "len", d)
    r = ZERO if d.args[0] is NONE else mk("app", "len", d.args[0])
    seen = mkdict(d.args[0])
    for a, b in d.args[1]:
        has = d_haskey(seen, a)
        gone = lift(lambda x: TRUE if x is UNDEF else FALSE, b)
        r = ite(gone, ite(has, arith("-", r, ONE), r), ite(has, r, arith("+", r, ONE)))
        seen = mkdict(seen.args[0], seen.args[1] + ((a, b),))
    return r


def d_keys(d):
    """sequence of keys of a dict value without deletions (insertion order)"""
    r = EMPTY if d.args[0] is NONE else opq(mk("keys", d.args[0]))
    seen = mkdict(d.args[0])
    for a, b in d.args[1]:
        if b is UNDEF:
            return None
        has = d_haskey(seen, a)
        r = ite(has, r, concat(r, mkseq((item(a),))))
        seen = mkdict(seen.args[0], seen.args[1] + ((a, b),))
    return r


def concat(a, b):
    return lift(lambda x, y: x if x.op in ("err", "undef") else y if y.op in ("err", "undef") else mkseq(x.args + y.args), a, b)


def to_bool(v):
    """boolean leaf terms become atoms"""
    def f(l):
        if l is TRUE or l is FALSE:
            return l
        return truth(l)

    return lift(f, v)


# --------------------------------------------------------------------------- traversal
BINDERS = {"sum": (1, 2), "map": (1, 2), "first": (1, 2), "takewhile": (1, 2)}


def kids(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in _flat(a):
                yield b


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def subterms(*ts):
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(kids(x))


def contains(t, x):
    return any(y is x for y in subterms(t))


def maxbv(*ts):
    m = -1
    for x in subterms(*ts):
        if x.op in ("bv", "cv"):
            m = max(m, x.args[0])
    return m


def _binder(t):
    """index of the binder variable argument, indices in its scope"""
    op = t.op
    if op in ("sum", "map", "first", "takewhile"):
        return 2, (1,)
    if op == "app" and t.args[0] == "any":
        return 3, (2,)
    if op == "dmap":
        return 2, (3, 4, 5)
    return None


def subst(t, mp, memo=None):
    """rebuild t with the terms in mp replaced, re-normalising"""
    if not mp:
        return t
    memo = {} if memo is None else memo
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = mp.get(t)
    if r is None:
        b = _binder(t)
        if b is not None and t.args[b[0]] in mp:
            bv = t.args[b[0]]
            mp2 = {k: v for k, v in mp.items() if k is not bv}
            args = list(t.args)
            for i, a in enumerate(args):
                if isinstance(a, T) and i != b[0]:
                    args[i] = subst(a, mp2) if i in b[1] else _subst(a, mp, memo)
            r = build(t.op, args, t)
        else:
            r = _rebuild(t, mp, memo)
        if r is not t and r.op != "ite":
            q = mp.get(r)
            if q is not None:
                r = q
    memo[t] = r
    return r


def _sub_tuple(a, mp, memo):
    return tuple(_subst(x, mp, memo) if isinstance(x, T) else _sub_tuple(x, mp, memo) if isinstance(x, tuple) else x
                 for x in a)


def _rebuild(t, mp, memo):
    op = t.op
    if op in ("const", "num", "sym", "enum", "class", "func", "ext", "builtin", "undef", "err", "bv", "cv", "exc", "emptyc"):
        return t
    if op == "ite":
        c = _subst(t.args[0], mp, memo)
        hi, lo = _subst(t.args[1], mp, memo), _subst(t.args[2], mp, memo)
        if c is t.args[0]:
            if hi is t.args[1] and lo is t.args[2]:
                return t
            return ite(atomv(c), hi, lo)
        return ite_v(to_bool(c) if c.op != "gt0" and c.op != "eq0" else atomv(c), hi, lo)
    if op == "poly":
        ch = False
        vs = {}
        for m, c in t.args:
            for v, e in m:
                if v not in vs:
                    vs[v] = _subst(v, mp, memo)
                    ch = ch or vs[v] is not v
        if not ch:
            return t
        r = ZERO
        for m, c in t.args:
            x = const_fr(c)
            for v, e in m:
                w = vs[v]
                if e < 0:
                    w = lift(lambda q: q if q.op in ("err", "undef") else pinv(q), w)
                for _ in range(abs(e)):
                    x = arith("*", x, w)
            r = arith("+", r, x)
        return r
    args, ch = [], False
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, mp, memo)
        elif isinstance(a, tuple) and a and not isinstance(a[0], str):
            b = _sub_tuple(a, mp, memo)
        else:
            b = a
        ch = ch or b is not a and b != a
        args.append(b)
    if not ch:
        return t
    return build(op, args, t)


def _lift_args(f, args):
    """lift f over the gated T args"""
    idx = [i for i, a in enumerate(args) if isinstance(a, T)]

    def g(*vs):
        x = list(args)
        for i, v in zip(idx, vs):
            if v.op in ("err",):
                return v
            x[i] = v
        return f(x)

    return lift(g, *[args[i] for i in idx])


def build(op, args, t):
    if op == "gt0":
        return gt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "seq":
        r = EMPTY
        for s in args:
            if s.op == "opq":
                r = concat(r, lift(opq, s.args[0]))
            elif s.op == "map":
                r = concat(r, lift(lambda c, s=s: mapseq(c, s.args[1], s.args[2]), s.args[0]))
            else:
                r = concat(r, mkseq((s,)))
        return r
    if op == "item":
        return mk("item", args[0])
    if op == "tuple":
        return mk("tuple", *args)
    if op == "str":
        return _lift_args(lambda x: mkstr(x), args)
    if op == "app":
        n = args[0]
        if n == "isnone":
            return isnone(args[1])
        if n == "truthy":
            return truth(args[1])
        if n == "eq":
            return eq(args[1], args[2])
        if n == "any":
            return lift(lambda c: mkany(c, to_bool(args[2]), args[3]), args[1])
        if n == "haskey":
            return d_haskey(args[1], args[2])
        if n == "len":
            return lift(lambda c: d_len(c) if c.op in ("dict", "mapof", "dmap") else coll_len(c), args[1])
        if n == "round":
            return rnd(args[1], args[2])
        if n in ("mod", "floordiv"):
            return arith("%" if n == "mod" else "//", args[1], args[2])
        if n in ("float", "int", "str") and args[1].op in ("num",) and n != "str":
            return args[1] if n == "float" or args[1].args[0].denominator == 1 else mk("app", *args)
        return _lift_args(lambda x: mk("app", *x), args)
    if op == "sum":
        return lift(lambda c: mksum(c, args[1], args[2]) if c.op != "seq" else _sum_seq(c, args[1], args[2]), args[0])
    if op == "first":
        return lift(lambda c: mkfirst(c, to_bool(args[1]), args[2], args[3]), args[0])
    if op == "takewhile":
        return lift(lambda c: mktakewhile(c, to_bool(args[1]), args[2]), args[0])
    if op == "idx":
        return lift(lambda c, k: mkidx(c, k) if c.op != "dict" else mk("idx", c, k), args[0], args[1])
    if op == "drop":
        return lift(mkdrop, args[0], args[1])
    if op == "take":
        return lift(mktake, args[0], args[1])
    if op == "rev":
        return lift(mkrev, args[0])
    if op == "val":
        return d_val(args[0], args[1])
    if op == "dict":
        return lift(lambda b: mkdict(b, args[1]), args[0])
    if op == "opq":
        return mk("opq", args[0])
    if op in ("map", "dmap", "fold", "foldelem", "scan", "carry", "flist", "fdict", "ev"):
        return mk(op, *args)
    return _lift_args(lambda x: mk(op, *x), args)


def _sum_seq(c, body, bv):
    r = ZERO
    for s in c.args:
        if s.op == "item":
            r = arith("+", r, subst(body, {bv: s.args[0]}))
        elif s.op == "opq":
            r = arith("+", r, mksum(s.args[0], body, bv))
        else:
            return mk("sum", c, body, bv)
    return r
