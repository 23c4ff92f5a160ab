"""Obligations: reference models written in Python syntax under /verif/specs, analysed together with the
package by the same abstract interpreter (never executed), and the comparison of both value graphs."""
import ast
from fractions import Fraction
import os
import signal
import time

from . import terms as tm
from . import theory
from .interp import Interp, St, Out, Undecided, LOG, SHARED
from .program import Func, Broken
from .terms import (T, mk, const, ite, AND, OR, NOT, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, EMPTY, EMPTYD, lift, restrict, subst,
                    DT, DATE, TIME, arith, eq, gt, ge, isnone, truth, typeof, unopt, ANY, mkseq, item, opq, concat, mkdict, to_bool)


def parse_type(I, s):
    return I.prog.ann_type(ast.parse(s, mode="eval").body, I.stack[-1][0].module)


def text(v):
    if v.op == "const" and isinstance(v.args[0], str):
        return v.args[0]
    raise Undecided("spec: constant expected")


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def s_check(I, st, a, k, n):
    c = I.truth(st, a[0], n)
    I.checks.append(("check", st.pc, c, None, text(arg(a, k, 1, "msg", const("check"))), I.loc(n)))
    # what has been checked holds afterwards
    st.pc = AND(st.pc, c)
    return NONE


def s_check_same(I, st, a, k, n):
    x, y = I.freeze(st, a[0]), I.freeze(st, a[1])
    I.checks.append(("same", st.pc, x, y, text(arg(a, k, 2, "msg", const("check"))), I.loc(n)))
    return NONE


def s_check_apart(I, st, a, k, n):
    """two values made independently: violated where both are the very same value, not where they may be equal"""
    x, y = I.freeze(st, a[0]), I.freeze(st, a[1])
    one = tm.lift(lambda u, v: TRUE if u is v else FALSE, restrict(x, st.pc), restrict(y, st.pc))
    I.checks.append(("check", st.pc, NOT(to_bool(one)), None, text(arg(a, k, 2, "msg", const("check"))), I.loc(n)))
    return NONE


def s_assume(I, st, a, k, n):
    for x in a:
        c = I.truth(st, x, n)
        st.pc = AND(st.pc, c)
    return NONE


def s_catch(I, st, a, k, n):
    """name of the exception raised by the call, or None"""
    I.sinks.append([])
    s = st.copy()
    try:
        I.call(s, a[0], list(a[1:]), k, n)
    finally:
        sk = I.sinks.pop()
    prs = [(s, NONE)] + [(q, const(e.args[0])) for q, e, loc in sk]
    j, v = I.join_vals(prs)
    st.become(j)
    return v


def run_isolated(I, st, f, args, n, see=None):
    c0 = dict(I.counters)
    old_base = I.struct_base
    I.struct_base = c0
    try:
        return _run_isolated(I, st, f, args, n, see, c0)
    finally:
        I.struct_base = old_base


def _run_isolated(I, st, f, args, n, see, c0):
    s = st.copy()
    s.store[LOG] = EMPTY
    I.sinks.append([])
    try:
        r = I.call(s, f, list(args), {}, n)
    finally:
        sk = I.sinks.pop()
    prs = []

    def tup(q, kind, v):
        extra = []
        if see is not None:
            sv = I.call(q, see, [], {}, n)
            extra.append(I.freeze(q, sv))
        log = q.store.get(LOG, EMPTY)
        return mk("tuple", const(kind), v, restrict(log, q.pc), *extra)

    if s.pc is not FALSE:
        prs.append((s, tup(s, "return", I.freeze(s, r))))
    for q, e, loc in sk:
        if q.pc is not FALSE:
            prs.append((q, tup(q, "raise", const(e.args[0]))))
    I.counters = c0
    return prs


def s_outcome(I, st, a, k, n):
    see = k.get("see")
    c1 = dict(I.counters)
    prs = run_isolated(I, st, a[0], a[1:], n, see)
    prs = [(q, v) for q, v in prs if q.pc is not FALSE and theory.feasible(q.pc)]
    if not prs:
        st.pc = FALSE
        return UNDEF
    j, v = I.join_vals(prs)
    st.pc = AND(st.pc, j.pc)
    return restrict(v, st.pc)


def s_observe(I, st, a, k, n):
    q = text(a[0])
    c, _, m = q.partition(".")
    cl = I.prog.classes.get(c)
    if cl is None or (I.prog.find_method(c, m) is None and I.prog.find_prop(c, m) is None):
        raise Broken("no %s in the package" % q)
    o = {"name": text(k["name"]) if "name" in k else q, "see": k.get("see"), "model": k.get("model"),
         "silent": k.get("silent") is TRUE, "skip": k.get("skip"),
         "exact": k.get("exact") is TRUE}
    if "type" in k:
        o["type"] = parse_type(I, text(k["type"]))
    I.observed[q] = o
    return NONE


def s_unobserve(I, st, a, k, n):
    I.observed.pop(text(a[0]), None)
    return NONE


def s_fresh(I, st, a, k, n):
    ty = parse_type(I, text(a[0]))
    return I.fresh(text(a[1]), ty)


def s_stub(I, st, a, k, n):
    def f(s, l):
        s.store[("p", l, text(a[1]))] = a[2]
        return NONE
    return I.dispatch(st, a[0], f)


def s_generalise(I, st, a, k, n):
    """public fields of a constructed object become arbitrary values of their type"""
    ref = a[0]
    nm = text(a[1])
    for x in a[2:]:
        f = text(x)
        ty = I.prog.field_type(unopt(typeof(ref))[1], f)
        st.store[("f", ref, f)] = mk("sym", nm + "." + f, ty)
    return NONE


def s_event(I, st, a, k, n):
    I.event(st, text(a[0]), [I.freeze(st, x) for x in a[1:]])
    return NONE


def s_no_effect(I, st, a, k, n):
    """the call leaves every object that existed before as it was (except=[(object, field)...])"""
    f, msg = a[0], text(arg(a, k, 1, "msg", const("no effect")))
    exc = []
    if "ignore" in k:
        for t in k["ignore"].args:
            exc.append((t.args[0], text(t.args[1])) if t.op == "tuple" else (t, None))
    c0 = dict(I.counters)
    before = st.copy()
    prs = run_isolated(I, st, f, [], n)
    unseen = {key for i in I.unseen if i in I.shared for key in I.shared[i][1]}
    for q, v in prs:
        if not theory.feasible(q.pc):
            continue
        for key, val in q.store.items():
            if key[0] not in ("f", "c"):
                continue
            ref = key[1]
            if ref.op == "new" and c0.get(ref.args[0], 0) < ref.args[1] < SHARED:
                continue
            if ref.op in ("class", "ext") or key in unseen:
                continue
            if len(key) > 2 and key[2].startswith("_") and not I.prog.known_field(unopt(typeof(ref))[-1], key[2]):
                continue
            if any(ref is r and (nm is None or len(key) < 3 or key[2] == nm) for r, nm in exc):
                continue
            old = before.store.get(key)
            if old is None:
                old = next((m[key] for _, m in I.shared.values() if key in m), None)
            if old is None:
                old = I.default(key)
            if old is val:
                continue
            I.checks.append(("same", q.pc, restrict(val, q.pc), restrict(old, q.pc),
                             "%s: %s%s" % (msg, tm.show(ref), "." + key[2] if len(key) > 2 else ""), I.loc(n)))
        log = v.args[2] if v.op == "tuple" else EMPTY
        I.checks.append(("same", q.pc, log, EMPTY, msg + ": events", I.loc(n)))
    return NONE


def s_axiom(I, st, a, k, n):
    cls = text(a[0])
    fn = a[1]
    memo = {}

    def ax(t):
        r = memo.get(t.id)
        if r is None:
            saved, theory.AXIOMS_ON = theory.AXIOMS_ON, False
            cs = dict(I.counters)
            try:
                s = St(TRUE, {k2: v2 for k2, v2 in st.store.items() if k2[0] == "v"})
                sinks, I.sinks = I.sinks, [[]]
                try:
                    v = I.call(s, fn, [t], {}, n)
                    r = I.truth(s, v, n)
                finally:
                    I.sinks = sinks
            finally:
                theory.AXIOMS_ON = saved
                I.counters = cs
            memo[t.id] = r
        return r

    for c in I.prog.classes.values():
        if any(b.name == cls for b in c.mro):
            theory.AXIOMS.setdefault(c.name, []).append(ax)
    theory._CC.clear()
    return NONE


def s_same(I, st, a, k, n):
    return eq(a[0], a[1])


def s_events(I, st, a, k, n):
    return I.new_list(st, st.store.get(LOG, EMPTY))


def s_implies(I, st, a, k, n):
    return OR(NOT(I.truth(st, a[0], n)), I.truth(st, a[1], n))


def s_bounded_size(I, st, a, k, n):
    return const(I.bound[0]) if I.bound else NONE


def s_other_run(I, st, a, k, n):
    """the same value in a run at another time, with other random numbers, identities and environment"""
    v = I.freeze(st, a[0])
    m = {}
    for t in tm.subterms(v):
        if t.op == "app" and t.args[0] in ("uuid4", "arrow.utcnow"):
            m[t] = mk("app", t.args[0], t.args[1] + 100000, *t.args[2:])
        elif t.op == "app" and t.args[0] in ("nondet", "nondet.pydt", "nondet.env"):
            m[t] = mk("app", t.args[0], t.args[1], arith("+", t.args[2], mk("num", Fraction(100000))))
        elif t.op == "app" and t.args[0] == "id":
            m[t] = mk("app", "nondet", const("id"), mk("num", Fraction(t.id)))
    return subst(v, m) if m else v


def s_show(I, st, a, k, n):
    print("SHOW", [tm.show(I.freeze(st, x)) for x in a], "pc", tm.show(st.pc))
    return NONE


SPEC_BUILTINS = {
    "check": s_check, "check_same": s_check_same, "check_apart": s_check_apart, "assume": s_assume, "catch": s_catch, "outcome": s_outcome,
    "observe": s_observe, "unobserve": s_unobserve, "fresh": s_fresh, "stub": s_stub, "generalise": s_generalise,
    "event": s_event, "check_no_effect": s_no_effect, "axiom": s_axiom, "same": s_same, "events": s_events,
    "implies": s_implies, "other_run": s_other_run, "show": s_show,
}


# --------------------------------------------------------------------------- running
class Result:
    def __init__(self, name):
        self.name = name
        self.status = None          # discharged / violated / undecided
        self.failures = []
        self.reason = ""
        self.checks = 0
        self.reached = 0
        self.visited = {}
        self.call_sites = 0
        self.loops = 0
        self.used_bound = False
        self.mode = ""
        self.time = 0.0


def describe(I, lits):
    out = []
    for a, p in lits:
        t = tm.show(a)
        t = t if p else "not (%s)" % t
        w = I.prov.get(a.id)
        out.append(t + (" [decided at %s]" % w if w else ""))
    return out


def trusted(I, *terms):
    """a difference that depends on state the model knows nothing about (an attribute added to the classes, on an
    arbitrary instance) decides nothing: the instance may not exist"""
    if not I.unknown:
        return
    seen, todo = set(), [t for t in terms if isinstance(t, T)]
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "attr" and t.args[1] in I.unknown:
            raise Undecided("depends on %s, which is not part of the documented state" % tm.show(t))
        todo += flat(t.args)


def flat(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from flat(a)


def decide(I):
    """-> (failures, reached)"""
    fails, reached = [], 0
    for kind, pc, x, y, msg, loc in I.checks:
        if pc is FALSE:
            continue
        if kind == "same" and x is y:
            reached += 1 if theory.feasible(pc) else 0
            continue
        if not theory.feasible(pc):
            continue
        reached += 1
        if kind == "check":
            p = theory.find_path(AND(pc, NOT(x)))
            if p is not None:
                trusted(I, pc, x)
                for q in tm.atoms(x):
                    if q.op == "eq":
                        comparable(*q.args)
                fails.append((msg, loc, describe(I, p), None, None))
        else:
            m = mk("const", "#unreachable")
            d = theory.differ(ite(pc, x, m), ite(pc, y, m), [])
            if d is not None:
                p, u, v = d
                trusted(I, pc, x, y)
                more, u, v = first_diff(u, v, p)
                comparable(u, v)
                fails.append((msg, loc, describe(I, list(p) + more), tm.show(u), tm.show(v)))
    return fails, reached


OPAQUE = ("dt.format", "dt.strftime", "dt.isoformat", "time.isoformat", "time.strftime", "fmt", "strfmt", "floor", "ceil",
          "dt.timestamp", "dt.humanize", "dt.ceil", "dt.floor", "str.join", "dt.astimezone")


def comparable(u, v):
    """operations the model has no algebra for may compute the same value in two ways: a difference between one of them
    and something else decides nothing"""
    if not isinstance(u, T) or not isinstance(v, T):
        return
    fu, fv = heads(u), heads(v)
    for x in fu ^ fv:
        if x in OPAQUE or isinstance(x, tuple):
            raise Undecided("compares %s with another computation" % (x if isinstance(x, str) else tm.show(x[1])))


def heads(t):
    r = {x.args[0] for x in theory.subterms(t) if x.op == "app"}
    for x in theory.subterms(t):
        # a field of a date that was computed: the date may be the same one, written otherwise
        b = None
        if x.op == "app" and x.args[0] == "strslice" and any(y.op == "app" and y.args[0] == "uuid4" for y in theory.subterms(x)):
            r.add(("part of an identifier", x))
        if x.op == "app" and x.args[0] in ("dt.weekday", "dt.date", "dt.time", "dt.setdate"):
            b = x.args[1]
        elif x.op == "attr" and typeof(x.args[0]) in (DT, DATE, TIME):
            b = x.args[0]
        if b is not None and b.op == "poly":
            r.add(("of a computed date", x))
    return r


def first_diff(u, v, lits, depth=0):
    """descend to the first differing component -> (more conditions, u, v)"""
    if depth < 10 and u.op == v.op and u.op in ("tuple", "seq", "item", "ev", "saw") and len(u.args) == len(v.args):
        ctx = theory.context(list(lits), True)
        for a, b in zip(u.args, v.args):
            if isinstance(a, T) and isinstance(b, T) and a is not b:
                try:
                    if theory.same(a, b, ctx):
                        continue
                    d = theory.differ(a, b, list(lits))
                except theory.Budget:
                    return [], a, b
                if d is None:
                    continue
                more, x, y = first_diff(d[1], d[2], list(lits) + list(d[0]), depth + 1)
                return list(d[0]) + more, x, y
    return [], u, v


LAST = [None]


def thresholds(I):
    """sizes the code distinguishes: constants that lengths of collections are compared with"""
    if I is None:
        return []
    found, seen = set(), set()
    todo = [t for c in I.checks for t in c[1:4] if isinstance(t, T)]
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        todo += flat(t.args)
        if t.op in ("gt0", "eq0") and t.args[0].op == "poly":
            ks, c0 = [], 0
            for mono, c in t.args[0].args:
                if not mono:
                    c0 = c
                elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "app" and mono[0][0].args[0] == "len":
                    ks.append(c)
            if len(ks) == 1 and c0:
                k = -c0 / ks[0]
                if 2 <= k <= 6000:
                    found.add(int(k))
    for F in I.visited.values():
        if not F.module.rel.startswith("estrade"):
            continue
        for n in ast.walk(F.node):
            if isinstance(n, ast.Compare):
                for c in [n.left] + n.comparators:
                    if isinstance(c, ast.Constant) and type(c.value) is int and 2 <= c.value <= 6000:
                        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" for x in ast.walk(n)):
                            found.add(c.value)
        for n in ast.walk(F.node):
            around = []
            if isinstance(n, ast.Slice):
                around = [n.lower, n.upper]
            elif isinstance(n, ast.While):
                around = [c for x in ast.walk(n.test) if isinstance(x, ast.Compare) for c in [x.left] + x.comparators]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "islice"):
                around = list(n.args)
            if around:
                for c in around:
                    if isinstance(c, ast.UnaryOp):
                        c = c.operand
                    if isinstance(c, ast.Constant) and type(c.value) is int and 2 <= c.value <= 6000:
                        found.add(c.value)
    for m in I.prog.modules.values():
        if m.rel.startswith("estrade"):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.keyword) and n.arg == "maxlen" and isinstance(n.value, ast.Constant) \
                        and type(n.value.value) is int and 2 <= n.value.value <= 6000:
                    found.add(n.value.value)
    return sorted(found)


def run_once(prog, F, bound, steps=None):
    theory.reset()
    I = LAST[0] = Interp(prog, bound)
    if steps:
        I.step_limit = steps
    I.sinks = [[]]
    st = St(TRUE, {})
    I.fid_n += 1
    fid = I.fid_n
    I.frames[fid] = (None,)
    a = F.node.args
    for p in a.args:
        ty = prog.ann_type(p.annotation, F.module)
        st.store[("v", fid, p.arg)] = mk("sym", p.arg, ty)
    I.stack.append((F, fid, None, ()))
    I.captured.add(fid)
    out = Out()
    I.block(st, F.node.body, out)
    for s, e, loc in I.sinks[0]:
        if e.args[0] == "#stop":
            continue
        I.checks.append(("check", s.pc, FALSE, None, "%s raised at %s" % (e.args[0], loc), loc))
    fails, reached = decide(I)
    return I, fails, reached


class Late(theory.Budget):
    pass


GIVEUP = (Undecided, theory.Budget, RecursionError, MemoryError)


def _late(*_):
    raise Late("time limit")


def limited(f, seconds):
    """the analysis gives up (undecided) after some time, whatever it is doing"""
    old = signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


SIZES = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 1)]


def run_obligation(prog, F, deep=False, verbose=False, budget=300.0):
    t0 = time.time()
    one = min(budget, 250.0 if deep else 60.0)
    r = Result(F.name)
    opts = {}
    for d in F.node.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "options":
            opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
    why = ""
    fails0 = LAST[0] = None
    if not opts.get("bounded_only"):
        try:
            I, fails0, reached = limited(lambda: run_once(prog, F, None), one)
            take(r, I, reached)
            if not fails0 and reached:
                r.status, r.mode = "discharged", "all sizes"
                r.time = time.time() - t0
                return r
            if not reached:
                why = "no check reached"
            elif I.loops == 0 and not opts.get("bounded"):
                r.status, r.mode, r.failures = "violated", "all sizes", fails0
                r.time = time.time() - t0
                return r
            else:
                why = "summarised analysis inconclusive: " + "; ".join(f[0] for f in fails0[:3])
        except GIVEUP as e:
            why = "summarised analysis: " + (str(e) or type(e).__name__)
        except Broken:
            raise
        except Exception as e:      # an operation the analyser does not survive: the sizes may
            why = "summarised analysis: analyser: %s %s" % (type(e).__name__, e)
    n_ok = 0
    more = []
    given = [tuple(x) for x in opts.get("sizes", SIZES)]

    def sizes():
        yield from given
        for k in thresholds(LAST[0])[:3] if opts.get("grow", True) else []:
            for x in [(k + 1, 0), (k + 1, 1), (k + 2, 1)] if k < 12 else [(k, 0), (k + 2, 0)]:
                if x not in given:
                    more.append(x)
                    yield x
        if deep:
            yield from [tuple(x) for x in opts.get("deep", [(3, 2), (4, 1)])]

    for b in sizes():
        if time.time() - t0 > budget or (not deep and time.time() - t0 > 100):
            why += "; time"
            break
        try:
            I, fails, reached = limited(lambda: run_once(prog, F, b), min(one, max(1.0, budget - (time.time() - t0))))
        except GIVEUP as e:
            why += "; size %s: %s" % (b, e or type(e).__name__)
            continue
        except Broken:
            raise
        except Exception as e:
            why += "; size %s: analyser: %s %s" % (b, type(e).__name__, e)
            continue
        take(r, I, reached)
        if fails:
            r.status, r.mode, r.failures = "violated", "collections of %d/%d elements" % b, fails
            r.time = time.time() - t0
            return r
        if reached:
            n_ok += 1
    r.reason = why
    r.status = "bounded" if n_ok else "undecided"
    r.mode = "%d sizes" % n_ok
    r.time = time.time() - t0
    return r


def take(r, I, reached):
    r.visited.update(I.visited)
    r.call_sites += I.call_sites
    r.loops += I.loops
    r.checks += len(I.checks)
    r.reached += reached
    r.used_bound = r.used_bound or I.used_bound


def obligations(prog, module):
    m = prog.modules[module]
    out = []
    for s in m.tree.body:
        if isinstance(s, ast.FunctionDef) and not s.name.startswith("_"):
            out.append(m.scope[s.name][1])
    return out
