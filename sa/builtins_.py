"""Abstract semantics of the Python builtins, the container/str/datetime methods and the external
libraries the analysed package uses (arrow, datetime, threading, csv, os, logging, uuid, pytz)."""
import ast
from fractions import Fraction

from . import terms as tm
from . import theory
from .program import BUILTIN_EXC
from .interp import Undecided, SIDE_FREE, Out, LOG
from .terms import (T, mk, const, ite, AND, OR, NOT, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, EMPTY, EMPTYD, lift, restrict,
                    arith, eq, gt, ge, isnone, truth, rnd, typeof, unopt, ANY, NUM, INT, FLOAT, BOOL, STR, DT, DATE,
                    TIME, mkseq, item, opq, concat, mkdict, d_haskey, d_val, subst, contains, to_bool, padd, mkstr)

PYDT = ("pydt",)
tm.APP_TYPES.update({
    "os.path.exists": BOOL, "os.path.isfile": BOOL, "os.path.isdir": BOOL, "os.path.parent": BOOL, "thread.is_alive": BOOL, "callable": BOOL,
    "dt.setdate": DT, "dt.ceil": DT, "dt.floor": DT, "dt.settz": DT, "dt.setfold": DT, "dt.fold": INT, "time": TIME, "date": DATE, "dt.datetime": PYDT,
    "dt.naive": PYDT, "nondet": NUM, "nondet.pydt": PYDT, "nondet.env": ("opt", STR), "id": INT, "strslice": STR, "strfmt": STR, "repr": STR, "ext": ANY, "isoformat": STR, "str.lower": STR,
    "str.upper": STR, "str.strip": STR, "str.startswith": BOOL, "str.endswith": BOOL, "str.join": STR,
    "str.replace": STR, "str.format": STR, "str.title": STR, "enum.name": STR, "floor": INT, "ceil": INT,
})

DT_ATTRS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


# --------------------------------------------------------------------------- helpers
def seq_sum(I, seq, start):
    def total(s):
        r = ZERO
        for seg in s.args:
            if seg.op == "item":
                r = arith("+", r, seg.args[0])
            elif seg.op == "opq":
                C = seg.args[0]
                ty = typeof(C)
                bv = mk("bv", tm.maxbv(C) + 1, ty[1] if len(ty) > 1 else ANY)
                r = arith("+", r, tm.mksum(C, bv, bv))
            elif seg.op == "map":
                C, body, bv = seg.args
                b = lift(lambda x: total(x) if x.op == "seq" else tm.err("TypeError"), body)
                r = arith("+", r, tm.mksum(C, b, bv))
            else:
                raise Undecided("sum over the states of a loop")
        return r

    return arith("+", start, lift(lambda s: total(s) if s.op == "seq" else s, seq))


def seq_any(I, st, seq, f):
    """is f(element) (a boolean diagram) true for some element"""
    def go(s):
        r = FALSE
        for seg in s.args:
            if seg.op == "item":
                r = OR(r, to_bool(f(seg.args[0])))
            elif seg.op == "opq":
                C = seg.args[0]
                ty = typeof(C)
                bv = mk("bv", tm.maxbv(C) + 1, ty[1] if len(ty) > 1 else ANY)
                r = OR(r, tm.mkany(C, to_bool(f(bv)), bv))
            elif seg.op == "map":
                C, body, bv = seg.args
                g = lift(lambda x: go(x) if x.op == "seq" else FALSE, body)
                r = OR(r, tm.mkany(C, to_bool(g), bv))
            else:
                raise Undecided("any over the states of a loop")
        return r

    return lift(lambda s: go(s) if s.op == "seq" else FALSE, seq)


def need(args, n):
    if len(args) < n:
        raise Undecided("call with too few arguments")


def frz(I, st, v):
    return I.freeze(st, v)


def app(I, st, name, *vs):
    """pure application lifted over gated arguments"""
    vs = [restrict(v, st.pc) for v in vs]
    return lift(lambda *xs: mk("app", name, *xs), *vs) if vs else mk("app", name)


def is_literal(seq):
    return all(s.op == "seq" and all(x.op == "item" for x in s.args) for s in tm.leaves(seq))


# --------------------------------------------------------------------------- builtins
def call_builtin(I, st, name, args, kwargs, node):
    F = I.stack[-1][0] if I.stack else None
    if F is not None and F.module.name.startswith("specs."):
        from . import spec
        h = spec.SPEC_BUILTINS.get(name)
        if h is not None:
            return h(I, st, args, kwargs, node)
    h = B.get(name)
    if h is None:
        raise Undecided("builtin %s" % name)
    return h(I, st, args, kwargs, node)


def b_len(I, st, a, k, n):
    need(a, 1)

    def f(s, l):
        if l.op == "const" and isinstance(l.args[0], str):
            return const(len(l.args[0]))
        if l.op == "tuple":
            return const(len(l.args))
        ty = unopt(typeof(l))
        if l.op in ("seq",):
            return tm.seq_len(l)
        if l.op == "dict":
            return tm.d_len(l)
        if l.op == "class":
            return const(len(I.prog.classes[l.args[0]].members))
        if ty == STR or l is NONE:
            if l is NONE:
                I.raise_(s, I.exc("TypeError"), n)
                return ZERO
            return mk("app", "len", l)
        if l.op == "new" and l.args[0] == "set":
            return tm.seq_len(I.set_items(s, I.content(s, l), False))
        I.not_none(s, l, n)
        if ty[0] == "dict":
            return lift(tm.d_len, I.content(s, l))
        if ty[0] == "list" or ty == ANY and l.op != "app":
            return tm.seq_len(I.content(s, l))
        if ty[0] == "obj":
            F = I.prog.find_method(ty[1], "__len__")
            if F:
                return I.call_func(s, F, None, l, [], {}, n)
        I.raise_(s, I.exc("TypeError"), n)
        return ZERO

    return I.dispatch(st, a[0], f)


def b_sum(I, st, a, k, n):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    seq = I.to_seq(st, a[0], n, ordered=False)
    return I.guard(st, restrict(seq_sum(I, seq, start), st.pc), n)


def _minmax(big):
    def h(I, st, a, k, n):
        key = k.get("key")
        def best(s, xs):
            r = xs[0]
            kr = I.call(s, key, [r], {}, n) if key is not None else r
            if any(typeof(l)[0] in ("obj", "list", "dict") or l.op == "tuple" for x in xs for l in tm.leaves(x)) and key is None:
                raise Undecided("min/max of objects")
            for x in xs[1:]:
                kx = I.call(s, key, [x], {}, n) if key is not None else x
                c = to_bool(I.guard(s, gt(kx, kr) if big else gt(kr, kx), n))
                if key is None and all(typeof(l) != INT for l in tm.leaves(r)):
                    pass
                r, kr = ite(c, x, r), ite(c, kx, kr)
            return restrict(r, s.pc)

        if len(a) == 1:
            seq = restrict(I.to_seq(st, a[0], n, ordered=key is not None), st.pc)
            if not is_literal(seq):
                if key is not None:
                    raise Undecided("min/max with a key over a collection of unknown size")
                return lift(lambda s: mk("app", "max" if big else "min", s), seq)
            e = lift(lambda s: tm.boolc(not s.args), seq)
            if "default" not in k:
                I.raise_if(st, e, I.exc("ValueError"), n)
            dflt = k.get("default", UNDEF)
            seq = restrict(seq, st.pc)
            return I.dispatch(st, seq, lambda s, l: best(s, [x.args[0] for x in l.args]) if l.args else dflt)

        return best(st, a)

    return h


def b_abs(I, st, a, k, n):
    x = a[0]
    c = I.guard(st, gt(x, ZERO), n)
    return restrict(tm.ite_v(c, x, tm.neg(x)), st.pc)


def b_round(I, st, a, k, n):
    nd = a[1] if len(a) > 1 else k.get("ndigits", NONE)
    d = lift(lambda x: ZERO if x is NONE else x, nd)
    bad = lift(lambda x: TRUE if x is NONE else FALSE, a[0])
    I.raise_if(st, bad, I.exc("TypeError"), n)
    x = restrict(a[0], st.pc)
    I.raise_if(st, lift(lambda q: isnone(q), x), I.exc("TypeError"), n)
    return I.guard(st, rnd(restrict(x, st.pc), d), n)


def b_float(I, st, a, k, n):
    if not a:
        return ZERO

    def f(s, l):
        l = tm._boolnum(l)
        if l is NONE:
            I.raise_(s, I.exc("TypeError"), n)
            return ZERO
        if l.op == "const" and isinstance(l.args[0], str):
            try:
                return const(float(l.args[0]))
            except ValueError:
                I.raise_(s, I.exc("ValueError"), n)
                return ZERO
        if typeof(l)[0] in ("num", "int", "float"):
            return l
        if typeof(l)[0] in ("list", "dict", "obj"):
            I.raise_(s, I.exc("TypeError"), n)
            return ZERO
        return mk("app", "float", l)

    return I.dispatch(st, a[0], f)


def b_int(I, st, a, k, n):
    if not a:
        return ZERO

    def f(s, l):
        l = tm._boolnum(l)
        if l is NONE:
            I.raise_(s, I.exc("TypeError"), n)
            return ZERO
        if l.op == "num":
            return const(int(l.args[0]))
        if typeof(l) == INT:
            return l
        if l.op == "const" and isinstance(l.args[0], str):
            try:
                return const(int(l.args[0]))
            except ValueError:
                I.raise_(s, I.exc("ValueError"), n)
                return ZERO
        return mk("app", "int", l)

    return I.dispatch(st, a[0], f)


def b_bool(I, st, a, k, n):
    return I.truth(st, a[0], n) if a else FALSE


def b_str(I, st, a, k, n):
    return restrict(I.tostr(a[0]), st.pc) if a else const("")


def b_list(I, st, a, k, n):
    if not a:
        return I.new_list(st, EMPTY)
    return I.new_list(st, I.to_seq(st, a[0], n))


def b_tuple(I, st, a, k, n):
    if not a:
        return mk("tuple")
    seq = restrict(I.to_seq(st, a[0], n), st.pc)
    if is_literal(seq):
        return lift(lambda s: mk("tuple", *[x.args[0] for x in s.args]), seq)
    return I.new_list(st, seq)


def b_set(I, st, a, k, n):
    return I.new_set(st, restrict(I.to_seq(st, a[0], n, ordered=None), st.pc) if a else EMPTY)


def set_method(I, st, b, name, a, k, n):
    c = I.content(st, b)
    if name == "add":
        I.set_add(st, b, mkseq((item(a[0]),)))
        return NONE
    if name == "update":
        for x in a:
            I.set_add(st, b, I.to_seq(st, x, n, ordered=None))
        return NONE
    if name == "clear":
        I.set_content(st, b, EMPTY)
        return NONE
    if name == "copy":
        return I.new_set(st, c)
    if name == "union":
        r = I.new_set(st, c)
        for x in a:
            I.set_add(st, r, I.to_seq(st, x, n, ordered=None))
        return r
    if name in ("difference", "intersection") and is_literal(c) and len(a) == 1:
        o = restrict(I.to_seq(st, a[0], n, ordered=None), st.pc)
        keep = EMPTY
        for l in [c]:
            if l.op != "seq":
                raise Undecided("set.%s" % name)
            for x in l.args:
                e = to_bool(I.seq_in(st, x.args[0], o, n))
                e = e if name == "intersection" else NOT(e)
                keep = lift(lambda q: ite(e, concat(q, mkseq((x,))), q), keep)
        return I.new_set(st, keep)
    if name in ("discard", "remove") and is_literal(c):
        if name == "remove":
            I.raise_if(st, NOT(to_bool(I.seq_in(st, a[0], c, n))), I.exc("KeyError"), n)

        def f(l):
            r = EMPTY
            for x in l.args:
                e = to_bool(eq(a[0], x.args[0]))
                r = lift(lambda q: ite(e, q, concat(q, mkseq((x,)))), r)
            return r
        I.set_content(st, b, restrict(lift(f, c), st.pc))
        return NONE
    if name == "__contains__":
        return to_bool(I.seq_in(st, a[0], c, n))
    raise Undecided("set.%s" % name)


def b_dict(I, st, a, k, n):
    d = EMPTYD
    if a:
        def f(s, l):
            if l.op == "dict" or unopt(typeof(l))[0] == "dict":
                return l if l.op == "dict" else I.content(s, l)
            return pairs_dict(I, s, EMPTYD, I.to_seq(s, l, n))
        d = I.dispatch(st, a[0], f)
    for kk, v in k.items():
        d = lift(lambda x: mkdict(x.args[0], x.args[1] + ((const(kk), v),)), d)
    return I.new_dict(st, d)


def pairs_dict(I, st, d, seq):
    def f(x, s):
        if s.op != "seq":
            raise Undecided("dict from an unknown sequence")
        r = x
        for seg in s.args:
            if seg.op == "item" and seg.args[0].op == "tuple" and len(seg.args[0].args) == 2:
                kk, v = seg.args[0].args
                r = lift(lambda y, q: mkdict(y.args[0], y.args[1] + ((q, v),)), r, kk)
            elif seg.op == "map" and r.op == "dict":
                C, body, bv = seg.args
                its = set()
                for l in tm.leaves(body):
                    if l.op == "seq" and not l.args:
                        continue
                    if l.op != "seq" or len(l.args) != 1 or l.args[0].op != "item" or l.args[0].args[0].op != "tuple":
                        raise Undecided("dict from a loop")
                    its.add(l)
                if len(its) != 1:
                    raise Undecided("dict from a loop")
                l = its.pop()
                kk, v = l.args[0].args[0].args
                c = lift(lambda q: TRUE if q is l else FALSE, body)
                r = mkdict(mk("dmap", r, C, bv, c, kk, v))
            else:
                raise Undecided("dict from an unknown sequence")
        return r

    return lift(f, d, seq)


def gen_of(I, st, seq):
    r = I.new("gen")
    st.store[("c", r)] = seq
    return r


def b_reversed(I, st, a, k, n):
    return I.from_live(st, gen_of(I, st, tm.rev_seq(I.to_seq(st, a[0], n))), a)


def b_iter(I, st, a, k, n):
    if all(l.op == "new" and l.args[0] == "gen" for l in tm.leaves(a[0])):
        return a[0]
    return I.from_live(st, gen_of(I, st, I.to_seq(st, a[0], n)), a)


def b_sorted(I, st, a, k, n):
    seq = restrict(I.to_seq(st, a[0], n, ordered="key" in k and k["key"] is not NONE), st.pc)
    return I.new_list(st, in_order(I, st, seq, k, n, "sorted"))


def in_order(I, st, seq, k, n, what):
    """The items of *seq*, in increasing (or decreasing) order of their keys; stable."""
    if is_literal(seq) and all(len(s.args) <= 1 for s in tm.leaves(seq)):
        return seq
    ls = tm.leaves(seq)
    key, rev = k.get("key", NONE), k.get("reverse", FALSE)
    if is_literal(seq) and all(len(l.args) <= 3 for l in ls) and rev in (TRUE, FALSE):
        def f(s, l):
            xs = [(x.args[0], x.args[0] if key is NONE else I.call(s, key, [x.args[0]], {}, n)) for x in l.args]
            if any(not (tm.is_numeric(q) or typeof(q) in (DT, DATE, TIME)) for _, q0 in xs for q in tm.leaves(q0)):
                raise Undecided(what)
            for i in range(len(xs)):
                for j in range(len(xs) - 1 - i):
                    (x, kx), (y, ky) = xs[j], xs[j + 1]
                    swap = to_bool(gt(ky, kx) if rev is TRUE else gt(kx, ky))
                    xs[j] = (ite(swap, y, x), ite(swap, ky, kx))
                    xs[j + 1] = (ite(swap, x, y), ite(swap, kx, ky))
            return mkseq(tuple(item(x) for x, _ in xs))
        return I.dispatch(st, seq, f)
    raise Undecided(what)


def b_enumerate(I, st, a, k, n):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    seq = I.to_seq(st, a[0], n)

    def f(s):
        out = EMPTY
        pos = start
        for seg in s.args:
            if seg.op == "item":
                out = concat(out, mkseq((item(mk("tuple", pos, seg.args[0])),)))
                pos = arith("+", pos, ONE)
            elif seg.op == "opq":
                C = seg.args[0]
                L = tm.coll_len_t(C)
                bv = mk("bv", tm.maxbv(C, pos) + 1, INT)
                body = mkseq((item(mk("tuple", arith("+", pos, bv), tm.mkidx(C, bv))),))
                out = concat(out, tm.mapseq(mk("range", L), body, bv))
                pos = arith("+", pos, L)
            else:
                raise Undecided("enumerate over a filtered collection")
        return out

    return I.from_live(st, gen_of(I, st, lift(lambda s: f(s) if s.op == "seq" else s, seq)), a[:1])


def b_zip(I, st, a, k, n):
    seqs = [restrict(I.to_seq(st, x, n), st.pc) for x in a]
    if not all(is_literal(s) for s in seqs):
        raise Undecided("zip of collections of unknown size")

    def f(*ss):
        m = min(len(s.args) for s in ss) if ss else 0
        return mkseq(tuple(item(mk("tuple", *[s.args[i].args[0] for s in ss])) for i in range(m)))

    return I.from_live(st, gen_of(I, st, lift(f, *seqs)), a)


def b_range(I, st, a, k, n):
    lo, hi, step = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]

    def f(l, h, s):
        if l.op == h.op == s.op == "num":
            rg = range(int(l.args[0]), int(h.args[0]), int(s.args[0]))
            if len(rg) > 64:
                raise Undecided("long range")
            return mkseq(tuple(item(const(i)) for i in rg))
        if s is not ONE:
            if s.op == "num" and s.args[0] == -1:
                m = padd(l, h, -1)
                bv = mk("bv", tm.maxbv(l, h) + 1, INT)
                return tm.mapseq(mk("range", m), mkseq((item(padd(l, bv, -1)),)), bv)
            raise Undecided("range with a step")
        m = padd(h, l, -1)
        if l is ZERO:
            return opq(mk("range", m))
        bv = mk("bv", tm.maxbv(l, h) + 1, INT)
        return tm.mapseq(mk("range", m), mkseq((item(padd(l, bv)),)), bv)

    return I.new_list(st, lift(f, restrict(lo, st.pc), restrict(hi, st.pc), restrict(step, st.pc)))


def b_any(I, st, a, k, n):
    return to_bool(seq_any(I, st, restrict(I.to_seq(st, a[0], n, ordered=False), st.pc), lambda x: etruth(I, st, x, n)))


def b_all(I, st, a, k, n):
    return NOT(to_bool(seq_any(I, st, restrict(I.to_seq(st, a[0], n, ordered=False), st.pc), lambda x: NOT(etruth(I, st, x, n)))))


def etruth(I, st, x, n):
    if all(typeof(l)[0] not in ("list", "dict", "obj") for l in tm.leaves(x)):
        return to_bool(truth(x))
    return I.truth(st, x, n)


def b_next(I, st, a, k, n):
    def f(s, ref):
        if unopt(typeof(ref))[0] == "obj" and I.prog.find_method(unopt(typeof(ref))[1], "__next__"):
            return I.call_method(s, ref, "__next__", [], {}, n)
        if not (ref.op == "new" and ref.args[0] == "gen"):
            I.raise_(s, I.exc("TypeError"), n)
            return UNDEF
        seq = I.content(s, ref)
        nonempty = lift(lambda q: to_bool(truth_seq(q)), seq)
        c = I.branch(s, to_bool(nonempty))
        if s.pc is FALSE:
            return UNDEF
        if len(a) < 2 and "default" not in k:
            I.raise_if(s, NOT(c), I.exc("StopIteration"), n)
            if s.pc is FALSE:
                return UNDEF
            c = TRUE
        if c is FALSE:
            return a[1]
        q = s.copy(AND(s.pc, c))
        v = I.seq_get(q, restrict(seq, q.pc), ZERO, n)
        try:
            rest = I.seq_slice(q, restrict(seq, q.pc), ONE, None, None, n)
        except Undecided:
            rest = mk("spent")
        q.store[("c", ref)] = rest
        if c is TRUE:
            s.become(q)
            return v
        e = s.copy(AND(s.pc, NOT(c)))
        j, r = I.join_vals([(q, v), (e, a[1])])
        s.become(j)
        return r

    return I.dispatch(st, a[0], f)


def truth_seq(q):
    """non-emptiness, descending in map segments"""
    if q.op != "seq":
        return FALSE
    r = FALSE
    for s in q.args:
        if s.op == "item":
            return TRUE
        if s.op == "opq":
            r = OR(r, to_bool(gt(tm.coll_len(s.args[0]), ZERO)))
        elif s.op == "map":
            g = to_bool(lift(truth_seq, s.args[1]))
            r = OR(r, tm.mkany(s.args[0], g, s.args[2]))
        else:
            raise Undecided("emptiness of the states of a loop")
    return r


def class_names(I, st, c):
    """names denoted by the second argument of isinstance"""
    if c.op == "tuple":
        out = []
        for x in c.args:
            out += class_names(I, st, x)
        return out
    if c.op == "class":
        return [c.args[0]]
    if c.op == "builtin":
        return [c.args[0]]
    if c.op == "ext":
        return [c.args[0].replace("exc.", "").split(".")[-1]]
    raise Undecided("isinstance with a computed class")


def isinst(I, st, l, nm):
    ty = typeof(l)
    n = FALSE
    if l is NONE:
        return tm.boolc(nm == "NoneType")
    if ty[0] == "opt":
        n = isnone(l)
        ty = ty[1]
    some = NOT(n)
    if l.op == "exc":
        return tm.boolc(I.prog.is_sub(l.args[0], nm))
    if l.op == "tuple":
        return tm.boolc(nm == "tuple")
    if l in (TRUE, FALSE):
        return tm.boolc(nm in ("bool", "int"))
    if l.op == "app" and l.args[0] == "uuid4":
        return tm.boolc(nm in ("UUID", "object"))
    k = ty[0]
    if k == "obj":
        if nm not in I.prog.classes:
            return FALSE if nm != "object" else TRUE
        if I.prog.is_sub(ty[1], nm):
            return some
        if not I.prog.related(ty[1], nm) or l.op == "new":
            return FALSE
        return AND(some, tm.atomv(mk("app", "isinst", l, const(nm))))
    tab = {"int": ("int",), "float": ("float",), "bool": ("bool", "int"), "str": ("str",), "list": ("list",),
           "dict": ("dict",), "dt": ("Arrow",), "pydt": ("datetime", "date"), "date": ("date",), "time": ("time",),
           "enum": ("Enum",)}
    if k == "enum":
        return some if nm in (ty[1], "Enum", "object") else FALSE
    if k in ("num", "int", "float") and nm in ("Number", "Real", "object"):
        return some
    if k == "num":
        if nm == "float":
            return AND(some, NOT(tm.atomv(mk("app", "isinst", l, const("int")))))
        if nm == "int":
            return AND(some, tm.atomv(mk("app", "isinst", l, const("int"))))
        return FALSE
    if k == "int":
        return some if nm == "int" else FALSE
    if k in tab:
        return some if nm in tab[k] + ("object",) else FALSE
    if k == "seq":
        return tm.boolc(nm == "list")
    cl = I.prog.classes.get(nm)
    if cl is not None and cl.is_enum:
        r = FALSE
        for m in cl.members:
            r = OR(r, to_bool(eq(l, mk("enum", nm, m))))
        return AND(some, r)
    return AND(some, tm.atomv(mk("app", "isinst", l, const(nm))))


def b_isinstance(I, st, a, k, n):
    names = class_names(I, st, a[1])

    def f(s, l):
        r = FALSE
        for nm in names:
            r = OR(r, isinst(I, s, l, nm))
        return r

    return I.dispatch(st, a[0], f)


def b_issubclass(I, st, a, k, n):
    names = class_names(I, st, a[1])

    def f(s, l):
        if l.op != "class":
            raise Undecided("issubclass")
        return tm.boolc(any(I.prog.is_sub(l.args[0], x) for x in names))

    return I.dispatch(st, a[0], f)


PYATTR = {"dt": DT_ATTRS + ("tzinfo", "timestamp", "datetime", "shift", "to", "replace", "date", "time", "weekday",
                            "format", "isoformat", "strftime", "floor", "humanize"),
          "pydt": DT_ATTRS + ("tzinfo", "timestamp", "replace", "date", "time", "weekday", "isoformat", "strftime",
                              "astimezone"),
          "date": ("year", "month", "day", "weekday", "isoformat"), "time": ("hour", "minute", "second", "microsecond", "tzinfo")}


def has_attr(I, s, l, nm):
    if l is NONE:
        return tm.boolc(hasattr(None, nm))
    ty = typeof(l)
    n = FALSE
    if ty[0] == "opt":
        n, ty = isnone(l), ty[1]
    k = ty[0]
    if k == "obj":
        if ty[1] not in I.prog.classes:
            return TRUE
        if I.prog.find_prop(ty[1], nm) or I.prog.find_method(ty[1], nm) or I.prog.find_const(ty[1], nm):
            return NOT(n)
        v = s.store.get(("f", l, nm))
        if v is not None:
            return AND(NOT(n), lift(lambda x: FALSE if x is UNDEF else TRUE, restrict(v, s.pc)))
        if l.op == "new":
            return FALSE
        if I.declared(ty[1], nm) or I.prog.field_type(ty[1], nm) != ANY:
            return NOT(n)
        return AND(NOT(n), tm.atomv(mk("app", "hasattr", l, const(nm))))
    if k in PYATTR:
        return NOT(n) if nm in PYATTR[k] else FALSE
    if k in ("num", "int", "float"):
        return tm.boolc(hasattr(1.0, nm))
    if k == "str":
        return tm.boolc(hasattr("", nm))
    if k in ("list", "seq"):
        return tm.boolc(hasattr([], nm))
    if k == "dict":
        return tm.boolc(hasattr({}, nm))
    if l.op == "class":
        return tm.boolc(I.prog.find_method(l.args[0], nm) is not None or I.prog.find_const(l.args[0], nm) is not None)
    return AND(NOT(n), tm.atomv(mk("app", "hasattr", l, const(nm))))


def name_arg(v):
    if v.op == "const" and isinstance(v.args[0], str):
        return v.args[0]
    raise Undecided("computed attribute name")


def b_hasattr(I, st, a, k, n):
    nm = name_arg(a[1])
    return I.dispatch(st, a[0], lambda s, l: has_attr(I, s, l, nm))


def b_getattr(I, st, a, k, n):
    def g(nm):
        if len(a) < 3:
            return lambda s, l: I.load_attr_leaf(s, l, nm, n)

        def f(s, l):
            c = I.branch(s, to_bool(has_attr(I, s, l, nm)))
            if s.pc is FALSE:
                return UNDEF
            if c is FALSE:
                return a[2]
            if c is TRUE:
                return I.load_attr_leaf(s, l, nm, n)
            s1, s2 = s.copy(AND(s.pc, c)), s.copy(AND(s.pc, NOT(c)))
            v = I.load_attr_leaf(s1, l, nm, n)
            j, r = I.join_vals([(s1, v), (s2, a[2])])
            s.become(j)
            return r
        return f

    return I.dispatch(st, a[1], lambda s, nv: I.dispatch(s, a[0], g(name_arg(nv))))


def b_setattr(I, st, a, k, n):
    I.store_attr(st, a[0], name_arg(a[1]), a[2], n)
    return NONE


def b_type(I, st, a, k, n):
    def f(s, l):
        ty = unopt(typeof(l))
        if ty[0] == "obj":
            return mk("class", ty[1])
        if l.op == "exc":
            return mk("class", l.args[0]) if l.args[0] in I.prog.classes else mk("ext", "exc." + l.args[0])
        return mk("app", "type", l)
    return I.dispatch(st, a[0], f)


def b_none(I, st, a, k, n):
    return NONE


def b_map(I, st, a, k, n):
    need(a, 2)
    if len(a) > 2:
        raise Undecided("map over several collections")

    def run(q, emit, out, orelse):
        def one(s, x, o):
            v = I.call(s, a[0], [x], {}, n)
            if s.pc is not FALSE:
                emit(s, v, o)
        I.iterate(q, a[1], one, out, orelse, n)
    return I.lazy(st, run)


def b_filter(I, st, a, k, n):
    def run(q, emit, out, orelse):
        def one(s, x, o):
            c = I.truth(s, x if a[0] is NONE else I.call(s, a[0], [x], {}, n), n)
            c = I.branch(s, c)
            if c is FALSE or s.pc is FALSE:
                return
            rest = s.copy(AND(s.pc, NOT(c)))
            s.pc = AND(s.pc, c)
            emit(s, x, o)
            s.become(I.join([s, rest]))
        I.iterate(q, a[1], one, out, orelse, n)
    return I.lazy(st, run)


def b_divmod(I, st, a, k, n):
    return mk("tuple", arith("//", a[0], a[1]), arith("%", a[0], a[1]))


def b_open(I, st, a, k, n):
    path = a[0]
    mode = a[1] if len(a) > 1 else k.get("mode", const("r"))
    f = I.new("File")
    isf = to_bool(lift(lambda p: truth(mk("app", "os.path.isfile", p)), path))

    def m(l):
        if l.op != "const":
            return l
        c = l.args[0].replace("+", "").replace("t", "")
        if c == "a":
            return const("append")
        if c == "w":
            return ite(isf, const("truncate"), const("append"))
        return const(c)

    md = lift(m, mode)
    st.store[("f", f, "path")] = path
    I.event(st, "open", [frz(I, st, path), restrict(md, st.pc)])
    return f


def b_print(I, st, a, k, n):
    return NONE


def b_id(I, st, a, k, n):
    return app(I, st, "id", a[0])


def b_hash(I, st, a, k, n):
    """of an object or a text: another number in each run"""
    def f(l):
        if tm.is_numeric(l) or l is NONE or typeof(l)[0] not in ("obj", "str"):
            raise Undecided("hash")
        return app(I, st, "id", l)
    return lift(f, a[0])


def b_property(I, st, a, k, n):
    a = list(a) + [k.get("fget")] * (not a)
    a += [k.get("fset")] * (len(a) < 2)
    if any(x is not None and x is not NONE and x.op not in ("func", "partial") for x in a[:2]):
        raise Undecided("property")
    return mk("prop", a[0] or NONE, a[1] or mk("builtin", "#readonly"))


def b_readonly(I, st, a, k, n):
    I.raise_(st, I.exc("AttributeError"), n)
    return tm.UNDEF


def b_callable(I, st, a, k, n):
    def f(l):
        if l.op in ("func", "meth", "class", "builtin", "ext", "partial", "supermeth"):
            return TRUE
        if l is NONE or l.op in ("const", "num"):
            return FALSE
        return tm.atomv(mk("app", "callable", l))
    return lift(f, a[0])


B = {
    "property": b_property, "#readonly": b_readonly,
    "len": b_len, "sum": b_sum, "min": _minmax(False), "max": _minmax(True), "abs": b_abs, "round": b_round,
    "float": b_float, "int": b_int, "str": b_str, "repr": lambda I, st, a, k, n: app(I, st, "repr", a[0]),
    "bool": b_bool, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_set, "dict": b_dict,
    "reversed": b_reversed, "iter": b_iter, "sorted": b_sorted, "enumerate": b_enumerate, "zip": b_zip,
    "range": b_range, "any": b_any, "all": b_all, "next": b_next, "isinstance": b_isinstance,
    "issubclass": b_issubclass, "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "type": b_type,
    "print": b_print, "object.__init__": b_none, "map": b_map, "filter": b_filter, "divmod": b_divmod,
    "open": b_open, "id": b_id, "hash": b_hash, "callable": b_callable,
    "pow": lambda I, st, a, k, n: I.guard(st, arith("**", a[0], a[1]), n),
    "object": lambda I, st, a, k, n: I.new("object"),
    "format": lambda I, st, a, k, n: fmt_value(I, a[0], a[1]) if len(a) > 1 else I.tostr(a[0]),
}


# --------------------------------------------------------------------------- datetimes
def micro(x):
    return arith("/", x, const(1000000))


TIME_PARTS = ("hour", "minute", "second", "microsecond")


def x_time(I, st, a, k, n):
    vs = list(a) + [NONE] * (4 - len(a))
    for q, v in k.items():
        if q in TIME_PARTS:
            vs[TIME_PARTS.index(q)] = v
        else:
            raise Undecided("time(%s=)" % q)
    vs = [ZERO if v is NONE else v for v in vs]
    while vs and vs[-1] is ZERO:
        vs.pop()
    return app(I, st, "time", *vs)


def x_date(I, st, a, k, n):
    vs = list(a) + [k[q] for q in ("year", "month", "day")[len(a):]]
    return app(I, st, "date", *vs)


CLOCK = {"hour": 3600, "minute": 60, "second": 1, "microsecond": Fraction(1, 1000000)}


def dt_trunc(b):
    """b is D less some of D's own clock components (or their remainders): -> (D, {component: what was taken}, rest)"""
    if b.op != "poly":
        return None
    D, taken, rest = None, {}, {}
    for m, c in b.args:
        if len(m) != 1 or m[0][1] != 1:
            return None
        v = m[0][0]
        if typeof(v) in (DT, PYDT) and c == 1:
            if D is not None:
                return None
            D = v
            continue
        w = v
        if v.op == "app" and v.args[0] == "mod" and v.args[2].op == "num" and v.args[2].args[0] > 0:
            w = v.args[1]
        if w.op != "attr" or w.args[1] not in CLOCK or w.args[1] in taken or c != -CLOCK[w.args[1]]:
            return None
        taken[w.args[1]] = (v, w.args[0])
        rest[m] = c
    if D is None or not taken:
        return None
    base = D
    while base.op == "app" and base.args[0] == "dt.setdate":
        base = base.args[1]
    if any(x is not D and x is not base for _, x in taken.values()):
        return None
    return D, {k: v for k, (v, _) in taken.items()}, tm.from_poly(rest)


def dt_attr(b, nm):
    """field of a datetime value, canonical"""
    t = dt_trunc(b)
    if t is not None:
        cur = dt_attr(t[0], nm)
        return arith("-", cur, t[1][nm]) if nm in t[1] else cur
    if b.op == "app" and b.args[0] in ("dt.date", "dt.time", "dt.datetime", "dt.naive"):
        return dt_attr(b.args[1], nm)
    if b.op == "app" and b.args[0] == "time" and nm in TIME_PARTS:
        i = 1 + TIME_PARTS.index(nm)
        return b.args[i] if i < len(b.args) else ZERO
    if b.op == "app" and b.args[0] == "date" and nm in ("year", "month", "day"):
        return b.args[1 + ("year", "month", "day").index(nm)]
    if b.op == "app" and b.args[0] == "dt.setdate":
        if nm in ("hour", "minute", "second", "microsecond"):
            return dt_attr(b.args[1], nm)
        v = b.args[2 + ("year", "month", "day").index(nm)]
        return v if v is not NONE else dt_attr(b.args[1], nm)
    return mk("attr", b, nm)


def dt_to(b, tz):
    while b.op == "app" and b.args[0] == "dt.to":
        b = b.args[1]
    return mk("app", "dt.to", b, tz)


def time_offset(b):
    h = arith("*", dt_attr(b, "hour"), const(3600))
    m = arith("*", dt_attr(b, "minute"), const(60))
    return arith("+", arith("+", h, m), arith("+", dt_attr(b, "second"), micro(dt_attr(b, "microsecond"))))


def weekday(b):
    if b.op == "app" and b.args[0] in ("dt.date", "dt.datetime", "dt.naive"):
        b = b.args[1]
    t = dt_trunc(b)
    return mk("app", "dt.weekday", t[0] if t else b)


def dt_floor(b, unit):
    unit = unit.rstrip("s")
    us = micro(dt_attr(b, "microsecond"))
    if unit == "second":
        return arith("-", b, us)
    if unit == "minute":
        return arith("-", arith("-", b, us), dt_attr(b, "second"))
    if unit == "hour":
        return arith("-", arith("-", arith("-", b, us), dt_attr(b, "second")), arith("*", dt_attr(b, "minute"), const(60)))
    off = time_offset(b)
    if unit == "day":
        return arith("-", b, off)
    if unit == "week":
        return arith("-", arith("-", b, off), arith("*", weekday(b), const(86400)))
    if unit == "month":
        return arith("-", mk("app", "dt.setdate", b, NONE, NONE, ONE), off)
    if unit == "year":
        return arith("-", mk("app", "dt.setdate", b, NONE, ONE, ONE), off)
    return mk("app", "dt.floor", b, const(unit))


SHIFT_S = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}


def dt_shift(I, st, b, kw, n):
    r = b
    months = ZERO
    for k, v in kw.items():
        if k in SHIFT_S:
            r = arith("+", r, arith("*", v, const(SHIFT_S[k])))
        elif k == "microseconds":
            r = arith("+", r, micro(v))
        elif k in ("months", "years", "quarters"):
            months = arith("+", months, arith("*", v, const({"months": 1, "years": 12, "quarters": 3}[k])))
        elif k in ("check_imaginary", "tzinfo"):
            pass
        else:
            I.raise_(st, I.exc("ValueError"), n)
            return UNDEF
    if months is not ZERO:
        r = lift(lambda x, m: x if m is ZERO else mk("app", "dt.shift", x, const("months"), m), r, months)
    return r


def dt_replace(I, st, b, kw, n):
    r = b
    d = {}
    for k, v in kw.items():
        if k in ("year", "month", "day"):
            d[k] = v
        elif k == "tzinfo":
            pass
        elif k == "fold":
            was = mk("app", "dt.fold", b)
            same = to_bool(eq(was, v))
            r = lift(lambda x, o: ite(same, x, mk("app", "dt.setfold", x, o)), r, v)
        elif k in ("hour", "minute", "second", "microsecond"):
            cur = dt_attr(b, k)
            diff = arith("-", v, cur)
            f = {"hour": 3600, "minute": 60, "second": 1}.get(k)
            r = arith("+", r, arith("*", diff, const(f)) if f else micro(diff))
        else:
            I.raise_(st, I.exc("AttributeError"), n)
            return UNDEF
    if d:
        # dates are set on the base, the time offset is unchanged
        t = dt_trunc(b)
        b = t[0] if t else b
        off = arith("-", r, b)
        y, m, dd = d.get("year", NONE), d.get("month", NONE), d.get("day", NONE)
        base = lift(lambda q, a, b_, c: mk("app", "dt.setdate", q, a, b_, c), b, y, m, dd)
        r = arith("+", base, off)
    if "tzinfo" in kw:
        r = lift(lambda x, z: x if z is dt_attr(x, "tzinfo") else mk("app", "dt.settz", x, z), r, kw["tzinfo"])
    return r


ARROW_TOKENS = {"YYYY": "Y", "YY": "y", "MM": "m", "M": "-m", "DD": "d", "D": "-d", "HH": "H", "H": "-H", "hh": "I",
                "h": "-I", "mm": "M", "m": "-M", "ss": "S", "s": "-S", "SSSSSS": "f", "MMMM": "B", "MMM": "b",
                "dddd": "A", "ddd": "a", "A": "p", "a": "P", "ZZZ": "Z", "ZZ": "z:", "Z": "z", "DDDD": "j", "X": "s"}
STRF_TOKENS = {"F": ("Y", "-", "m", "-", "d"), "T": ("H", ":", "M", ":", "S"), "R": ("H", ":", "M")}
FIELD_TOKENS = {"year": "Y", "month": "m", "day": "d", "hour": "H", "minute": "M", "second": "S", "microsecond": "f"}


def dt_text(b, tokens):
    """canonical text of a date: tokens are (kind, value), kind 't' a field, 'l' a literal"""
    while b.op == "app" and b.args[0] in ("dt.date", "dt.time", "dt.datetime", "dt.naive"):
        b = b.args[1]
    return tm.mkstr([const(v) if q == "l" else mk("app", "dt.text", b, const(v)) for q, v in tokens])


def strf_text(b, fmt):
    import re
    out = []
    for m in re.finditer(r"%(-?[A-Za-z%])|([^%]+)|(%)", fmt):
        t, lit, bad = m.groups()
        if bad:
            return None
        if lit is not None:
            out.append(("l", lit))
        elif t == "%":
            out.append(("l", "%"))
        elif t in STRF_TOKENS:
            out += [("l" if x in "-:" else "t", x) for x in STRF_TOKENS[t]]
        else:
            out.append(("t", t))
    return dt_text(b, out)


def arrow_text(b, fmt):
    import re
    out = []
    for m in re.finditer(r"\[\\S\s]*?\]|YYYY|YY|MMMM|MMM|MM|M|DDDD|DDD|DD|D|Do|dddd|ddd|d|HH|H|hh|h|mm|m|ss|s|S+|"
                         r"ZZZ|ZZ|Z|A|a|X|x|W|\[.*?\]|(.)", fmt):
        t = m.group(0)
        if t.startswith("[") and t.endswith("]") and len(t) > 1:
            out.append(("l", t[1:-1]))
        elif m.group(1) is not None:
            out.append(("l", t))
        elif t in ARROW_TOKENS:
            out.append(("t", ARROW_TOKENS[t]))
        else:
            return None
    return dt_text(b, out)


def fmt_value(I, x, spec):
    """format(x, spec)"""
    def f(v, s):
        if s.op != "const" or not isinstance(s.args[0], str):
            return mk("app", "fmt", v, s)
        if s.args[0] == "":
            return I.tostr(v)
        ty = unopt(typeof(v))
        r = None
        if ty == DT:
            r = arrow_text(v, s.args[0])
        elif ty in (PYDT, DATE, TIME):
            r = strf_text(v, s.args[0])
        elif v.op == "attr" and v.args[1] in FIELD_TOKENS and unopt(typeof(v.args[0])) in (DT, PYDT, DATE, TIME):
            width = {"year": "4", "microsecond": "6"}.get(v.args[1], "2")
            if s.args[0] in ("0" + width, "0" + width + "d", "0>" + width):
                return dt_text(v.args[0], [("t", FIELD_TOKENS[v.args[1]])])
        return r if r is not None else mk("app", "fmt", v, s)
    return lift(f, x, spec)


def dt_method(I, st, b, name, a, k, n):
    if name == "to" or name == "astimezone":
        tz = a[0] if a else k.get("tz", NONE)
        if name == "astimezone":
            return lift(lambda x: mk("app", "dt.astimezone", b, x), tz)
        return lift(lambda x: dt_to(b, x), tz)
    if name == "shift":
        return dt_shift(I, st, b, k, n)
    if name == "replace":
        return dt_replace(I, st, b, k, n)
    if name == "floor":
        return lift(lambda u: dt_floor(b, u.args[0]) if u.op == "const" else mk("app", "dt.floor", b, u), a[0])
    if name in ("date", "time"):
        if b.op == "app" and b.args[0] in ("dt.datetime", "dt.naive"):
            b = b.args[1]
        t = dt_trunc(b) if name == "date" else None
        return mk("app", "dt." + name, t[0] if t else b)
    if name == "weekday":
        return weekday(b)
    if name == "isoweekday":
        return arith("+", weekday(b), ONE)
    if name == "timestamp":
        return mk("app", "dt.timestamp", tm.strip_value(b))
    if name == "clone":
        return b
    if name in ("format", "strftime") and (a or name == "format"):
        g = arrow_text if name == "format" else strf_text
        extra = list(a[1:]) + [k[q] for q in sorted(k) if q != "fmt"]
        fm = a[0] if a else k.get("fmt", const("YYYY-MM-DD HH:mm:ssZZ"))
        if not extra:
            def h(q):
                r = g(b, q.args[0]) if q.op == "const" and isinstance(q.args[0], str) else None
                return r if r is not None else mk("app", "dt." + name, b, q)
            return lift(h, fm)
    if name in ("format", "strftime", "isoformat", "ceil", "utcoffset", "dst", "humanize", "toordinal", "isocalendar",
                "timetz", "span", "tzname", "utctimetuple", "timetuple"):
        vs = list(a) + [k[x] for x in sorted(k)]
        return lift(lambda *xs: mk("app", "dt." + name, b, *xs), *vs) if vs else mk("app", "dt." + name, b)
    I.raise_(st, I.exc("AttributeError"), n)
    return UNDEF


# --------------------------------------------------------------------------- methods
def call_builtin_method(I, st, b, name, a, k, n):
    ty = unopt(typeof(b))
    if b.op == "const" and isinstance(b.args[0], str) or b.op == "str" or ty == STR:
        return str_method(I, st, b, name, a, k, n)
    if ty[0] == "list" or b.op == "seq":
        return list_method(I, st, b, name, a, k, n)
    if ty[0] == "dict" or b.op == "dict":
        return dict_method(I, st, b, name, a, k, n)
    if ty in (DT, PYDT, DATE):
        return dt_method(I, st, b, name, a, k, n)
    if ty == TIME and name == "strftime" and a:
        return dt_method(I, st, b, name, a, k, n)
    if ty == TIME and name in ("isoformat", "strftime"):
        return app(I, st, "time." + name, b, *a)
    if ty == TIME and name == "replace":
        kw = dict(zip(TIME_PARTS, a))
        kw.update(k)
        return dt_replace(I, st, b, kw, n)
    if b.op == "new" and b.args[0] == "set":
        return set_method(I, st, b, name, a, k, n)
    if ty[0] == "obj":
        if ty[1] == "Thread":
            return thread_method(I, st, b, name, a, k, n)
        if ty[1] == "DictWriter":
            return writer_method(I, st, b, name, a, k, n)
        if ty[1] == "File":
            if name == "close":
                I.event(st, "file.close", [b])
                return NONE
            if name in ("__enter__",):
                return b
            if name in ("flush", "__exit__"):
                return NONE
        if ty[1] == "gen" and name == "__next__":
            return b_next(I, st, [b], {}, n)
        if ty[1] == "gen" and name in ("__iter__", "close"):
            return b
    if ty[0] in ("num", "int", "float"):
        if name == "total_seconds":
            return b
        if name == "is_integer":
            return tm.atomv(mk("app", "isint", b))
    if ty == ANY:
        # unknown receiver: opaque call with an effect
        fa = [frz(I, st, x) for x in a] + [mk("tuple", const(q), frz(I, st, v)) for q, v in sorted(k.items())]
        if b.op == "app":
            return lift(lambda *xs: mk("app", "m." + name, b, *xs), *fa) if fa else mk("app", "m." + name, b)
        I.event(st, "call", [b, const(name)] + fa)
        return lift(lambda *xs: mk("ret", "call." + name, ANY, b, *xs), *fa) if fa else mk("ret", "call." + name, ANY, b)
    raise Undecided("method %s of %s" % (name, ty[0] if ty[0] != "obj" else ty[1]))


def str_method(I, st, b, name, a, k, n):
    def f(x, *ys):
        if all(v.op == "const" and isinstance(v.args[0], str) for v in (x,) + ys) and hasattr(str, name) and name not in ("join", "format"):
            r = getattr(x.args[0], name)(*[y.args[0] for y in ys])
            if isinstance(r, (str, bool, int)):
                return const(r)
        return mk("app", "str." + name, x, *ys)

    if name == "join":
        seq = restrict(I.to_seq(st, a[0], n), st.pc)
        if is_literal(seq):
            def j(s):
                out = []
                for i, x in enumerate(s.args):
                    if i:
                        out.append(b)
                    out.append(x.args[0])
                return lift(lambda *xs: mkstr(list(xs)), *out) if out else const("")
            return lift(j, seq)
        return lift(lambda s: mk("app", "str.join", b, s), seq)
    if name == "format" and b.op == "const":
        import string
        out = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(b.args[0]):
                if lit:
                    out.append(const(lit))
                if fld is None:
                    continue
                if fld == "":
                    v = a[auto]
                    auto += 1
                elif fld.isdigit():
                    v = a[int(fld)]
                else:
                    v = k[fld]
                out.append(fmt_value(I, v, const(spec)) if spec else I.tostr(v))
        except (KeyError, IndexError, ValueError):
            raise Undecided("str.format")
        return lift(lambda *xs: mkstr(list(xs)), *out) if out else const("")
    if k:
        raise Undecided("str method with keywords")
    return lift(f, b, *a)


def list_method(I, st, b, name, a, k, n):
    c = I.content(st, b) if b.op != "seq" else b
    if b.op != "seq":
        I.not_none(st, b, n)

    ml = st.store.get(("f", b, "#maxlen")) if b.op == "new" else None
    if b.op == "attr":
        oty = tm.unopt(typeof(b.args[0]))
        if oty[0] == "obj" and I.prog.special_field(oty[1], b.args[1]):
            known, bound = I.prog.deque_field(oty[1], b.args[1])
            if known:
                ml = NONE if bound is None else const(bound)
                if bound is not None and ("c", b) not in st.store:
                    st.pc = restrict(AND(st.pc, NOT(to_bool(gt(tm.seq_len(c), ml)))), TRUE)

    def put(v, left=False):
        if b.op == "seq":
            raise Undecided("mutation of a frozen list")
        if ml is not None and ml is not NONE:
            have = tm.seq_len(v)
            over = restrict(to_bool(gt(have, ml)), st.pc)
            if over is not FALSE:
                cut = I.seq_slice(st, v, None, ml, None, n) if left else I.seq_slice(st, v, arith("-", have, ml), None, None, n)
                v = restrict(ite(over, cut, v), st.pc)
        I.set_content(st, b, v)

    if ml is not None:
        if name == "appendleft":
            put(concat(mkseq((item(a[0]),)), c), True)
            return NONE
        if name == "extendleft":
            put(concat(tm.rev_seq(I.to_seq(st, a[0], n)), c), True)
            return NONE
        if name == "popleft":
            return I.list_pop(st, b, ZERO, n)
        if name in ("insert", "rotate", "index", "sort"):
            raise Undecided("deque.%s" % name)
        if name == "copy":
            return x_deque(I, st, [b, ml], {}, n)
    if name == "append":
        put(concat(c, mkseq((item(a[0]),))))
        return NONE
    if name == "extend":
        put(concat(c, I.to_seq(st, a[0], n)))
        return NONE
    if name == "insert":
        if a[0] is ZERO:
            put(concat(mkseq((item(a[1]),)), c))
            return NONE
        lo = I.seq_slice(st, c, None, a[0], None, n)
        hi = I.seq_slice(st, c, a[0], None, None, n)
        put(concat(concat(lo, mkseq((item(a[1]),))), hi))
        return NONE
    if name == "pop":
        return I.list_pop(st, b, a[0] if a else const(-1), n)
    if name == "clear":
        put(EMPTY)
        return NONE
    if name == "copy":
        return I.new_list(st, c)
    if name == "reverse":
        put(tm.rev_seq(c))
        return NONE
    if name == "__len__":
        return tm.seq_len(c)
    if name == "__iter__":
        return gen_of(I, st, c)
    if name == "__contains__":
        return to_bool(I.seq_in(st, a[0], c, n))
    if name == "__getitem__":
        return I.getitem(st, b, a[0], n)
    if name == "remove":
        if not is_literal(c):
            raise Undecided("list.remove")

        def f(s, l):
            r, done = EMPTY, FALSE
            for x in l.args:
                e = to_bool(eq(a[0], x.args[0]))
                hit = AND(e, NOT(done))
                r = ite(hit, r, concat(r, mkseq((x,))))
                done = OR(done, e)
            I.raise_if(s, NOT(done), I.exc("ValueError"), n)
            return r
        put(I.dispatch(st, c, f))
        return NONE
    if name in ("index", "count"):
        if not is_literal(c):
            raise Undecided("list.%s" % name)

        def g(s, l):
            r, done, cnt = UNDEF, FALSE, ZERO
            for i in range(len(l.args) - 1, -1, -1):
                e = to_bool(eq(a[0], l.args[i].args[0]))
                r = ite(e, const(i), r)
                done = OR(done, e)
                cnt = arith("+", cnt, ite(e, ONE, ZERO))
            if name == "count":
                return cnt
            I.raise_if(s, NOT(done), I.exc("ValueError"), n)
            return restrict(r, s.pc)
        return I.dispatch(st, c, g)
    if name == "sort":
        put(in_order(I, st, c, k, n, "list.sort"))
        return NONE
    I.raise_(st, I.exc("AttributeError"), n)
    return UNDEF


def dict_items(I, st, d, mode, n):
    def f(x):
        ks = I.dkeys(x)

        def g(s):
            out = EMPTY
            for seg in s.args:
                if seg.op == "item":
                    kk = seg.args[0]
                    v = restrict(d_val(x, kk), TRUE)
                    out = concat(out, mkseq((item(v if mode == "v" else mk("tuple", kk, v)),)))
                elif seg.op == "opq":
                    C = seg.args[0]
                    ty = typeof(C)
                    bv = mk("bv", tm.maxbv(C, x) + 1, ty[1] if len(ty) > 1 else ANY)
                    v = d_val(x, bv)
                    out = concat(out, tm.mapseq(C, mkseq((item(v if mode == "v" else mk("tuple", bv, v)),)), bv))
                else:
                    raise Undecided("items of a computed dict")
            return out
        return lift(g, ks)
    return lift(f, d)


def dict_method(I, st, b, name, a, k, n):
    if b.op != "dict":
        I.not_none(st, b, n)
    d = I.content(st, b) if b.op != "dict" else b

    def put(v):
        if b.op == "dict":
            raise Undecided("mutation of a frozen dict")
        I.set_content(st, b, v)

    if name == "get":
        dflt = a[1] if len(a) > 1 else k.get("default", NONE)
        key = a[0]
        h = restrict(to_bool(d_haskey(d, key)), st.pc)
        return restrict(ite(h, d_val(d, key), dflt), st.pc)
    if name == "keys":
        return gen_keep(I, st, I.dkeys(d))
    if name == "values":
        return gen_keep(I, st, dict_items(I, st, d, "v", n))
    if name == "items":
        return gen_keep(I, st, dict_items(I, st, d, "i", n))
    if name == "__contains__":
        return to_bool(d_haskey(d, a[0]))
    if name == "__len__":
        return lift(tm.d_len, d)
    if name == "copy":
        return I.new_dict(st, d)
    if name == "clear":
        put(EMPTYD)
        return NONE
    if name == "setdefault":
        key = a[0]
        dv = a[1] if len(a) > 1 else NONE
        h = restrict(to_bool(d_haskey(d, key)), st.pc)
        cur = d_val(d, key)
        put(ite(h, d, lift(lambda x, q: mkdict(x.args[0], x.args[1] + ((q, dv),)), d, key)))
        return restrict(ite(h, cur, dv), st.pc)
    if name == "update":
        if a:
            def f(s, l):
                if l.op == "dict" or unopt(typeof(l))[0] == "dict":
                    return I.dict_merge(s, d, l, n)
                return pairs_dict(I, s, d, I.to_seq(s, l, n))
            d = I.dispatch(st, a[0], f)
        for q, v in k.items():
            d = lift(lambda x: mkdict(x.args[0], x.args[1] + ((const(q), v),)), d)
        put(d)
        return NONE
    if name == "pop":
        key = a[0]
        h = restrict(to_bool(d_haskey(d, key)), st.pc)
        if len(a) < 2:
            I.raise_if(st, NOT(h), I.exc("KeyError"), n)
            h = TRUE
        v = d_val(d, key)
        gone = lift(lambda x, q: mkdict(x.args[0], x.args[1] + ((q, UNDEF),)), d, key)
        put(ite(h, gone, d))
        return restrict(ite(h, v, a[1] if len(a) > 1 else UNDEF), st.pc)
    if name == "__getitem__":
        return I.getitem(st, b, a[0], n)
    if name == "__setitem__":
        I.setitem(st, b, a[0], a[1], n)
        return NONE
    if name == "__iter__":
        return gen_of(I, st, I.dkeys(d))
    I.raise_(st, I.exc("AttributeError"), n)
    return UNDEF


def gen_keep(I, st, seq):
    """a view (re-iterable)"""
    return I.new_list(st, seq)


def writes(I, before, after, c0):
    """what a thread changed in the objects that existed before it was started, as events"""
    out = []
    for key, v in after.store.items():
        if key[0] not in ("f", "c"):
            continue
        ref = key[1]
        if ref.op == "new" and ref.args[1] > c0.get(ref.args[0], 0):
            continue
        if len(key) > 2 and key[2].startswith("_") and not I.prog.known_field(unopt(typeof(ref))[-1], key[2]):
            continue
        old = before.store.get(key)
        if old is None:
            old = I.default(key)
        if restrict(old, after.pc) is restrict(v, after.pc):
            continue
        out.append((ref.id, key[2] if len(key) > 2 else "", item(mk("ev", const("write"), ref, const(
            key[2] if len(key) > 2 else ""), I.freeze(after, restrict(v, after.pc))))))
    return mkseq(tuple(x[2] for x in sorted(out, key=lambda x: x[:2])))


def thread_method(I, st, b, name, a, k, n):
    if name == "is_alive":
        return tm.atomv(mk("app", "truthy", mk("app", "thread.is_alive", b)))
    if name == "start":
        g = lambda f: st.store.get(("f", b, f), UNDEF)
        tgt = g("#target")
        if tgt is UNDEF:
            I.event(st, "thread.start", [b])
            return NONE
        s2 = st.copy()
        s2.store[LOG] = EMPTY
        args = I.to_seq(s2, g("#args"), n)
        if args.op != "seq" or any(x.op != "item" for x in args.args):
            raise Undecided("thread arguments")
        kw = g("#kwargs")
        kws = {}
        if kw is not NONE:
            d = I.content(s2, kw)
            if d.op != "dict" or d.args[0] is not NONE:
                raise Undecided("thread keyword arguments")
            kws = {q.args[0]: v for q, v in d.args[1]}
        c0 = dict(I.counters)
        I.sinks.append([])
        try:
            I.call(s2, tgt, [x.args[0] for x in args.args], kws, n)
        finally:
            sk = I.sinks.pop()
        parts = []
        if s2.pc is not FALSE:
            parts.append((s2, concat(s2.store.get(LOG, EMPTY), writes(I, st, s2, c0))))
        for s, e, loc in sk:
            parts.append((s, concat(concat(s.store.get(LOG, EMPTY), writes(I, st, s, c0)), mkseq((item(e),)))))
        _, log = I.join_vals(parts)
        I.event(st, "thread.run", [restrict(log, st.pc)])
        return NONE
    if name == "run":
        g = lambda f: st.store.get(("f", b, f), UNDEF)
        if g("#target") is UNDEF or g("#target") is NONE:
            raise Undecided("Thread.run called directly")
        args = I.to_seq(st, g("#args"), n)
        kw = g("#kwargs")
        d = EMPTYD if kw is NONE else I.content(st, kw)
        if args.op != "seq" or any(x.op != "item" for x in args.args) or d.op != "dict" or d.args[0] is not NONE:
            raise Undecided("thread arguments")
        I.call(st, g("#target"), [x.args[0] for x in args.args], {q.args[0]: v for q, v in d.args[1]}, n)
        return NONE
    if name == "join":
        I.event(st, "thread.join", [b])
        return NONE
    raise Undecided("thread method %s" % name)


def writer_method(I, st, b, name, a, k, n):
    f = st.store[("f", b, "#file")]
    path = I.load_attr(st, f, "path", n)
    hd = frz(I, st, st.store[("f", b, "#headers")])
    if name == "writeheader":
        I.event(st, "csv.header", [path, hd])
        return NONE
    if name == "writerow":
        I.event(st, "csv.row", [path, frz(I, st, a[0])])
        return NONE
    if name == "writerows":
        cell = []
        seq = I.to_seq(st, a[0], n)

        def bind(s, v):
            cell[:] = [v]

        def body(s, o):
            I.event(s, "csv.row", [I.load_attr(s, f, "path", n), frz(I, s, cell[0])])
        I.for_loop(st, seq, bind, body, Out())
        return NONE
    raise Undecided("DictWriter.%s" % name)


# --------------------------------------------------------------------------- external functions
def call_ext(I, st, d, a, k, n):
    if d.startswith("exc."):
        return I.exc(d[4:])
    root = d.split(".")[0]
    last = d.split(".")[-1]
    if root in SIDE_FREE:
        if last == "getLogger":
            return mk("ext", "logging.Logger")
        if root == "time" and last in ("time", "monotonic", "perf_counter", "process_time", "time_ns"):
            return mk("app", "nondet", const(d), mk("num", Fraction(I.num("nondet"))))
        if last in ("time", "sleep", "perf_counter"):
            raise Undecided(d)
        return NONE
    h = EXT.get(d)
    if h is not None:
        return h(I, st, a, k, n)
    pre = I.prog.modules["sa.prelude"].scope.get(d.replace(".", "_"))
    if pre is not None:
        return I.call(st, I.func_leaf(pre[1]), a, k, n)
    if root in ("threading",) and last == "Thread":
        return x_thread(I, st, a, k, n)
    if d.startswith("arrow."):
        if last in ("get", "utcnow", "now", "fromdatetime"):
            return x_arrow(I, st, last, a, k, n)
    if d.startswith("uuid."):
        return mk("app", "uuid4", I.num("uuid4"))
    if d in ("random.random", "random.uniform", "random.gauss", "random.randint", "random.randrange", "random.getrandbits", "os.getpid"):
        return mk("app", "nondet", const(d), mk("num", Fraction(I.num("nondet"))))
    if d in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today"):
        if a or k:
            return mk("app", "arrow.utcnow", I.num("utcnow"))
        return mk("app", "nondet.pydt", const(d), mk("num", Fraction(I.num("nondet"))))
    if d == "datetime.date.today":
        return mk("app", "dt.date", mk("app", "arrow.utcnow", I.num("utcnow")))
    if d in ("os.getenv", "os.environ.get"):
        return mk("app", "nondet.env", const(d), mk("num", Fraction(I.num("nondet"))))
    raise Undecided("external function %s" % d)


def x_arrow(I, st, last, a, k, n):
    if last in ("utcnow", "now"):
        return mk("app", "arrow.utcnow", I.num("utcnow"), *a)
    if last == "get" and not a and not k:
        return mk("app", "arrow.utcnow", I.num("utcnow"))
    tz = [k[x] for x in sorted(k)]

    def f(s, l):
        ty = unopt(typeof(l))
        if ty == DT and len(a) == 1 and not tz:
            return l
        if l is NONE:
            I.raise_(s, I.exc("TypeError"), n)
            return UNDEF
        if ty[0] in ("list", "dict", "obj"):
            I.raise_(s, I.exc("TypeError"), n)
            return UNDEF
        rest = list(a[1:]) + tz
        if len(rest) == 1 and (rest[0] is NONE or rest[0] is dt_attr(l, "tzinfo")):
            rest = []
        return lift(lambda *xs: mk("app", "arrow.get", l, *xs), *rest) if rest else mk("app", "arrow.get", l)
    return I.dispatch(st, a[0], f)


def x_timedelta(I, st, a, k, n):
    r = ZERO
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    vals = dict(zip(names, a))
    vals.update(k)
    for q, v in vals.items():
        f = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}.get(q)
        if f is not None:
            r = arith("+", r, arith("*", v, const(f)))
        elif q == "microseconds":
            r = arith("+", r, micro(v))
        elif q == "milliseconds":
            r = arith("+", r, arith("/", v, const(1000)))
        else:
            I.raise_(st, I.exc("TypeError"), n)
    return I.guard(st, r, n)


def x_deque(I, st, a, k, n):
    r = I.new_list(st, EMPTY)
    ml = a[1] if len(a) > 1 else k.get("maxlen", NONE)
    st.store[("f", r, "#maxlen")] = ml
    if a or "iterable" in k:
        list_method(I, st, r, "extend", [a[0] if a else k["iterable"]], {}, n)
    return r


def x_defaultdict(I, st, a, k, n):
    r = b_dict(I, st, a[1:], k, n)
    st.store[("f", r, "#factory")] = a[0] if a else NONE
    return r


def x_thread(I, st, a, k, n):
    t = I.new("Thread")
    names = ["group", "target", "name", "args", "kwargs"]
    vals = dict(zip(names, a))
    vals.update(k)
    st.store[("f", t, "#target")] = vals.get("target", NONE)
    st.store[("f", t, "#args")] = vals.get("args", mk("tuple"))
    st.store[("f", t, "#kwargs")] = vals.get("kwargs", NONE)
    return t


def x_writer(I, st, a, k, n):
    w = I.new("DictWriter")
    st.store[("f", w, "#file")] = a[0]
    st.store[("f", w, "#headers")] = a[1] if len(a) > 1 else k.get("fieldnames", NONE)
    extra = {q: v for q, v in k.items() if q not in ("fieldnames", "f")}
    if extra or len(a) > 2:
        I.event(st, "csv.options", [mk("tuple", const(q), v) for q, v in sorted(extra.items())] + a[2:])
    return w


def x_makedirs(I, st, a, k, n):
    path = a[0]
    ok = k.get("exist_ok", a[2] if len(a) > 2 else FALSE)
    ex = to_bool(lift(lambda p: truth(mk("app", "os.path.exists", p)), path))
    ex = restrict(ex, st.pc)
    okb = to_bool(truth(ok))
    I.raise_if(st, AND(ex, NOT(okb)), I.exc("FileExistsError"), n)
    if st.pc is FALSE:
        return NONE
    s1, s2 = st.copy(AND(st.pc, NOT(ex))), st.copy(AND(st.pc, ex))
    if s1.pc is not FALSE:
        I.event(s1, "makedirs", [frz(I, s1, path)])
    st.become(I.join([s1, s2]))
    return NONE


def x_mkdir(I, st, a, k, n):
    """one folder: its parent has to exist"""
    path = a[0]
    ex = restrict(to_bool(lift(lambda p: truth(mk("app", "os.path.exists", p)), path)), st.pc)
    parent = restrict(to_bool(lift(lambda p: truth(mk("app", "os.path.parent", p)), path)), st.pc)
    I.raise_if(st, ex, I.exc("FileExistsError"), n)
    I.raise_if(st, NOT(parent), I.exc("FileNotFoundError"), n)
    if st.pc is not FALSE:
        I.event(st, "makedirs", [frz(I, st, path)])
    return NONE


def x_join(I, st, a, k, n):
    out = []
    for i, p in enumerate(a):
        if i:
            out.append(const("/"))
        out.append(p)
    return lift(lambda *xs: mkstr(list(xs)), *out)


def x_path(nm):
    def h(I, st, a, k, n):
        return to_bool(lift(lambda p: truth(mk("app", nm, p)), a[0]))
    return h


def x_partial(I, st, a, k, n):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(k.items())))


def x_copy(I, st, a, k, n):
    def f(s, l):
        ty = unopt(typeof(l))
        if ty[0] == "list":
            return I.new_list(s, I.content(s, l))
        if ty[0] == "dict":
            return I.new_dict(s, I.content(s, l))
        raise Undecided("copy of an object")
    return I.dispatch(st, a[0], f)


def x_chain(I, st, a, k, n):
    r = EMPTY
    for x in a:
        r = concat(r, I.to_seq(st, x, n))
    return gen_of(I, st, r)


def x_islice(I, st, a, k, n):
    seq = I.to_seq(st, a[0], n)
    lo, hi = (ZERO, a[1]) if len(a) == 2 else (a[1], a[2])
    return gen_of(I, st, I.seq_slice(st, seq, lo, hi, a[3] if len(a) > 3 else None, n))


def _takedrop(take):
    def h(I, st, a, k, n):
        seq = I.to_seq(st, a[1], n)
        ref = I.new("gen")
        st.store[("c", ref)] = EMPTY
        if take:
            cell = []

            def bind(s, v):
                cell[:] = [v]

            def body(s, o):
                x = cell[0]
                c = I.branch(s, I.truth(s, I.call(s, a[0], [x], {}, n), n))
                if s.pc is FALSE:
                    return
                if c is not TRUE:
                    o.brk.append(s.copy(AND(s.pc, NOT(c))))
                    s.pc = AND(s.pc, c)
                if s.pc is not FALSE:
                    s.store[("c", ref)] = concat(s.store[("c", ref)], mkseq((item(x),)))
            I.for_loop(st, seq, bind, body, Out())
            return ref
        raise Undecided("itertools.dropwhile")
    return h


EXT = {
    "datetime.timedelta": x_timedelta,
    "datetime.time": x_time,
    "datetime.date": x_date,
    "threading.Thread": x_thread,
    "csv.DictWriter": x_writer,
    "collections.deque": x_deque,
    "collections.defaultdict": x_defaultdict,
    "collections.OrderedDict": b_dict,
    "os.makedirs": x_makedirs,
    "os.mkdir": x_mkdir,
    "os.path.join": x_join,
    "os.path.exists": x_path("os.path.exists"),
    "os.path.isfile": x_path("os.path.isfile"),
    "os.path.isdir": x_path("os.path.exists"),
    "functools.partial": x_partial,
    "copy.copy": x_copy,
    "itertools.chain": x_chain,
    "itertools.islice": x_islice,
    "itertools.takewhile": _takedrop(True),
    "typing.cast": lambda I, st, a, k, n: a[1],
    "math.fabs": b_abs,
    "math.fsum": b_sum,
    "math.floor": lambda I, st, a, k, n: app(I, st, "floor", a[0]),
    "math.ceil": lambda I, st, a, k, n: app(I, st, "ceil", a[0]),
    "operator.attrgetter": lambda I, st, a, k, n: mk("partial", mk("ext", "#attrget"), (a[0],), ()),
    "#attrget": lambda I, st, a, k, n: I.load_attr(st, a[1], name_arg(a[0]), n),
}
