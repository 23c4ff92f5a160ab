"""Feasibility of a conjunction of literals and equality of value-graph terms under it.

Literals are atoms of the value graph with a polarity.  Decided by: substitution of equalities
(None-ness, enum members, object identity, solved linear equations), Fourier-Motzkin elimination
over the linear part (monomials as variables, integer tightening), and congruence of atoms.
Incomplete in one direction only: `consistent` answers False only for a contradiction.
"""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, TRUE, FALSE, NONE, ZERO, ONE, INT, NUM, DT, TIME, BOOL, atomv, AND, NOT, lift, restrict, subst,
                    subterms, contains, to_poly, from_poly, padd, typeof, unopt, UNDEF, EMPTYC)

AXIOMS_ON = True
AXIOMS = {}      # class name -> list of functions(term) -> boolean value (type invariants)
STATS = {"consistent": 0, "fm": 0}
_CC = {}


class Ctx:
    __slots__ = ("ok", "lits", "sub", "ineqs", "nes", "memo", "same_memo", "same_neg", "final", "_lin")


def reset():
    _CC.clear()
    _SUMS.clear()
    AXIOMS.clear()


def consistent(lits, final=False):
    return context(lits, final).ok


_NEST = [0]


def context(lits, final=False):
    if _NEST[0] >= 3:
        final = False
    key = (frozenset((a.id, p) for a, p in lits), final, AXIOMS_ON)
    c = _CC.get(key)
    if c is None:
        STATS["consistent"] += 1
        _NEST[0] += 1
        try:
            c = _build(list(lits), final)
        finally:
            _NEST[0] -= 1
        if len(_CC) > 40000:
            _CC.clear()
        _CC[key] = c
    return c


def _lits_of(v, want):
    """literals implied by: boolean diagram v equals want; None when more than one path"""
    out = []
    bad = boolc = FALSE if want else TRUE
    while v.op == "ite":
        a, hi, lo = v.args
        if hi is bad:
            out.append((a, False))
            v = lo
        elif lo is bad:
            out.append((a, True))
            v = hi
        else:
            return out, v
    if v is bad:
        return None, None
    return out, TRUE if want else FALSE


def _pick_sub(a, b):
    """orient an equality between non numeric terms"""
    rank = lambda t: 0 if t.op in ("const", "enum", "class", "num") else 1 if t.op in ("new",) else 2
    ra, rb = rank(a), rank(b)
    if ra == 0 and rb == 0:
        return None
    if ra < rb:
        return (b, a)
    if rb < ra:
        return (a, b)
    if contains(a, b):
        return (a, b)
    if contains(b, a):
        return (b, a)
    return (b, a) if a.id < b.id else (a, b)


def _bounded(v):
    return v.op == "attr" and v.args[1] in ("hour", "minute", "second", "microsecond", "month", "day") or \
        v.op == "app" and v.args[0] in ("mod", "dt.weekday")


def _solve(p):
    """p == 0 -> (var, expr)"""
    d = to_poly(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            if v.op in ("num", "const"):
                continue
            rest = from_poly({k: x for k, x in d.items() if k != m})
            if contains(rest, v):
                continue
            # prefer opaque applications, then the newest term
            # (not what is known to lie between bounds, which would be forgotten)
            score = (not _bounded(v), v.op == "app" and v.args[0] != "len", v.op != "sym", v.id)
            if best is None or score > best[0]:
                best = (score, v, tm.pmul(rest, tm.const_fr(Fraction(-1) / c)))
    return None if best is None else (best[1], best[2])


def _axiom_lits(terms, done):
    out = []
    if not AXIOMS or not AXIOMS_ON:
        return out
    for t in subterms(*terms):
        if t.op == "attr":
            ty = unopt(typeof(t.args[0]))
            if ty[0] == "obj":
                b = t.args[0]
                if b.id in done or b.op in ("bv", "cv"):
                    continue
                fs = AXIOMS.get(ty[1])
                if fs:
                    done.add(b.id)
                    for f in fs:
                        out.append(f(b))
    return out


def _build(lits, final):
    c = Ctx()
    c.final = final
    c.ok = True
    c.sub = {}
    c.memo = {}
    c.same_memo = {}
    c.same_neg = set()
    c._lin = None
    cur = [(a, p) for a, p in lits]
    residual = []          # (diagram, want)
    enum_not = {}
    done_ax = set()
    first_facts = set()
    for rnd in range(14):
        changed = False
        # axioms
        for v in _axiom_lits([a for a, _ in cur], done_ax):
            residual.append((v, True))
        work = [(a, p, None) for a, p in cur] + [(None, w, v) for v, w in residual]
        cur2, residual = {}, []
        while work:
            a, p, v = work.pop(0)
            if v is None:
                v = subst(atomv(a), c.sub, c.memo) if c.sub else atomv(a)
            elif c.sub:
                v = subst(v, c.sub, c.memo)
            if v.op in ("err", "undef"):
                continue
            ls, rest = _lits_of(v, p)
            if ls is None:
                c.ok = False
                return c
            if rest not in (TRUE, FALSE):
                # restrict the rest with what is known
                for x, q in cur2.values():
                    rest = restrict(rest, atomv(x) if q else NOT(atomv(x)))
                if rest.op != "ite":
                    if rest is not (TRUE if p else FALSE):
                        if rest in (TRUE, FALSE):
                            c.ok = False
                            return c
                else:
                    l2, r2 = _lits_of(rest, p)
                    if l2 is None:
                        c.ok = False
                        return c
                    if l2:
                        ls = ls + l2
                        rest = r2
                    if rest.op == "ite":
                        residual.append((rest, p))
            for x, q in ls:
                old = cur2.get(x.id)
                if old is not None:
                    if old[1] != q:
                        c.ok = False
                        return c
                    continue
                cur2[x.id] = (x, q)
        # residual diagrams under all the literals of this round
        again = True
        while again and residual:
            again = False
            left = []
            for v, p in residual:
                for x, q in cur2.values():
                    v = restrict(v, atomv(x) if q else NOT(atomv(x)))
                ls, rest = _lits_of(v, p)
                if ls is None:
                    c.ok = False
                    return c
                for x, q in ls:
                    old = cur2.get(x.id)
                    if old is None:
                        cur2[x.id] = (x, q)
                        again = changed = True
                    elif old[1] != q:
                        c.ok = False
                        return c
                if rest.op == "ite":
                    left.append((rest, p))
            residual = left
        cur = list(cur2.values())
        # derive equalities
        newsub = {}
        for a, p in cur:
            if newsub:
                break
            if a.op == "app" and a.args[0] == "eq":
                x, y = a.args[1], a.args[2]
                if p:
                    s = _pick_sub(x, y)
                    if s:
                        newsub[s[0]] = s[1]
                else:
                    for u, w in ((x, y), (y, x)):
                        if w.op == "enum" and unopt(typeof(u))[0] == "enum":
                            enum_not.setdefault(u, set()).add(w.args[1])
            elif a.op == "app" and a.args[0] == "isnone" and p:
                newsub[a.args[1]] = NONE
            elif a.op == "eq0" and p:
                s = _solve(a.args[0])
                if s:
                    newsub[s[0]] = s[1]
            elif a.op == "gt0" and not p:
                q = a.args[0]
                if q.op == "app" and q.args[0] == "len":
                    x = q.args[1]
                    newsub[x] = EMPTYC if x.op not in ("mapof", "dmap") else NONE
            elif a.op == "app" and a.args[0] == "any" and p and a not in first_facts:
                C, g, bv = a.args[1:4]
                first_facts.add(a)
                ex = tm.gt(tm.coll_len(C), ZERO)
                residual.append((ex, True))
                changed = True
        if not newsub:
            for u, s in enum_not.items():
                mem = tm._HOOK.get("members", lambda e: None)(unopt(typeof(u))[1])
                if mem and typeof(u)[0] == "enum":
                    left = [m for m in mem if m not in s]
                    if not left:
                        c.ok = False
                        return c
                    if len(left) == 1 and u not in c.sub:
                        newsub[u] = mk("enum", unopt(typeof(u))[1], left[0])
        for k, v in list(newsub.items()):
            if k.op == "app" and k.args[0] == "round":      # what equals a rounded value is its own rounding
                r = tm.rnd(v, k.args[2])
                if r is not v and r.op == "app" and r not in c.sub:
                    newsub[r] = v
        if newsub:
            for k, v in newsub.items():
                if contains(v, k):
                    continue
                c.sub = {a: subst(b, {k: v}) for a, b in c.sub.items()}
                c.sub[k] = v
                changed = True
            c.memo = {}
        if not changed and not residual:
            break
        if not changed:
            break
    c.lits = cur
    # ---------------------------------------------------------------- opposite polarity congruence
    groups = {}
    for a, p in cur:
        if a.op == "app":
            groups.setdefault((a.args[0], len(a.args)), []).append((a, p))
    for k, g in groups.items():
        pos = [a for a, p in g if p]
        neg = [a for a, p in g if not p]
        for x in pos:
            for y in neg:
                if k[0] == "any" and final:
                    if _any_clash(x, y, c):
                        c.ok = False
                        return c
                elif final and all(same_args(u, w, c) for u, w in zip(x.args[1:], y.args[1:])):
                    c.ok = False
                    return c
    # ---------------------------------------------------------------- arithmetic
    if not arith_ok(c):
        c.ok = False
        return c
    # ---------------------------------------------------------------- residual diagrams: split
    if residual and final:
        v, want = residual[0]
        for path in _paths(v, TRUE if want else FALSE, 8):
            if path is None:
                return c
            lits2 = list(lits) + path
            if len(lits2) > 120:
                return c
            if consistent_l(lits2, final):
                return c
        c.ok = False
    return c


def _sub_lits(sub):
    out = []
    for k, v in sub.items():
        try:
            e = tm.eq(k, v)
        except (Budget, MemoryError, RecursionError):
            raise
        except Exception:
            continue
        ls, rest = _lits_of(e, True) if e.op == "ite" else ([], TRUE)
        if ls:
            out.extend(ls)
    return out


def consistent_l(lits, final):
    return context(lits, final).ok


def _paths(v, target, limit):
    out = []

    def go(x, acc):
        if len(out) > limit:
            return
        if x.op != "ite":
            if x is target or (x not in (TRUE, FALSE) and target is TRUE):
                out.append(acc)
            return
        go(x.args[1], acc + [(x.args[0], True)])
        go(x.args[2], acc + [(x.args[0], False)])

    go(v, [])
    if len(out) > limit:
        out.append(None)
    return out


def _any_clash(x, y, c):
    """any(C, g1) true and any(C2, g2) false: contradictory when C same and g1 implies g2"""
    C1, g1, b1 = x.args[1:4]
    C2, g2, b2 = y.args[1:4]
    if C1 is not C2 and not same(C1, C2, c):
        return False
    if b1 is not b2:
        w = b1 if b1.args[0] > b2.args[0] else b2
        w = mk("bv", max(b1.args[0], b2.args[0]), b1.args[1])
        g1, g2 = subst(g1, {b1: w}), subst(g2, {b2: w})
    bad = AND(tm.to_bool(g1), NOT(tm.to_bool(g2)))
    return not feasible(bad, c.lits + _sub_lits(c.sub))


# --------------------------------------------------------------------------- arithmetic
def _facts(vars_):
    """constraints (poly, strict) : poly >= 0 or > 0"""
    out = []
    clock = set()
    for v in vars_:
        if v.op == "app":
            n = v.args[0]
            if n == "len":
                out.append((v, False))
            elif n == "mod":
                b = v.args[2]
                if b.op == "num" and b.args[0] > 0:
                    out.append((v, False))
                    out.append((padd(b, v, -1), True))
                elif typeof(b) == INT:
                    out.append((v, None, b))
            elif n == "dt.weekday":
                out.append((v, False))
                out.append((padd(tm.const(6), v, -1), False))
            elif n == "round":
                k = v.args[2]
                if k.op == "num" and k.args[0].denominator == 1 and abs(k.args[0]) < 12:
                    e = tm.const_fr(Fraction(1, 2) * Fraction(10) ** (-int(k.args[0])))
                    d = padd(v, v.args[1], -1)
                    out.append((padd(e, d), False))
                    out.append((padd(e, d, -1), False))
            elif n == "dt.timestamp":
                pass
        elif v.op == "sum":
            for sgn in _sum_sign(v):
                out.append((v if sgn > 0 else padd(ZERO, v, -1), False))
        elif v.op == "attr" and v.args[1] in ("hour", "minute", "second", "microsecond", "month", "day") and typeof(v) == INT:
            hi = {"hour": 23, "minute": 59, "second": 59, "microsecond": 999999, "month": 12, "day": 31}[v.args[1]]
            lo = 1 if v.args[1] in ("month", "day") else 0
            out.append((padd(v, tm.const(lo), -1), False))
            out.append((padd(tm.const(hi), v, -1), False))
            if v.args[1] in CLOCK:
                b = v.args[0]
                clock.add(mk("app", "dt.time", b) if unopt(typeof(b)) in (tm.DT, ("pydt",)) else b)
        if v.op == "app" and v.args[0] == "time":
            clock.add(v)
    for v in clock:
        if v.op == "app" and v.args[0] == "time":
            parts = list(v.args[1:]) + [ZERO] * (5 - len(v.args))
        else:
            b = v.args[1] if v.op == "app" and v.args[0] == "dt.time" else v
            parts = [mk("attr", b, q) for q in CLOCK]
        tot = ZERO
        for q, f in zip(parts, (3600, 60, 1, Fraction(1, 1000000))):
            if not tm.leaf_num(q):
                break
            tot = padd(tot, tm.pmul(q, tm.const_fr(Fraction(f))))
        else:
            d = padd(v, tot, -1)
            out.append((d, False))
            out.append((padd(ZERO, d, -1), False))
    return out


CLOCK = ("hour", "minute", "second", "microsecond")
_SUMS = {}


def _sum_sign(v):
    """signs every term of the sum has (a loop over the empty collection gives 0)"""
    k = (v.id, AXIOMS_ON)
    r = _SUMS.get(k)
    if r is None:
        _SUMS[k] = ()
        r = []
        b = v.args[1]
        for sgn in (1, -1):
            bad = tm.gt(ZERO, b) if sgn > 0 else tm.gt(b, ZERO)
            bad = lift(lambda l: l if l in (TRUE, FALSE) else TRUE, bad)
            if not feasible(bad):
                r.append(sgn)
        _SUMS[k] = r = tuple(r)
    return r


def _signs(cons, polys):
    """constraints on the sign of products and quotients whose factors have a known sign"""
    out, monos, sign = [], {}, {}
    for p in polys:
        for m in to_poly(p):
            if len(m) > 1 or (m and m[0][1] != 1):
                monos[m] = 1
    for m in list(monos)[:8]:
        s = 1
        strict = True
        for v, e in m:
            if e % 2 == 0:
                strict = strict and sgn_of(v, cons, sign)[1] or e < 0
                continue
            k, st = sgn_of(v, cons, sign)
            if k == 0:
                s = 0
                break
            s *= k
            strict = strict and (st or e < 0)
        if s:
            t = from_poly({m: Fraction(s)})
            out.append((t, strict))
    return out


def sgn_of(v, cons, memo):
    r = memo.get(v)
    if r is None:
        n = padd(ZERO, v, -1)
        if not fm(cons + [(n, False)]):
            r = (1, True)
        elif not fm(cons + [(v, False)]):
            r = (-1, True)
        elif not fm(cons + [(n, True)]):
            r = (1, False)
        elif not fm(cons + [(v, True)]):
            r = (-1, False)
        else:
            r = (0, False)
        memo[v] = r
    return r


def _lin(p):
    d = to_poly(p)
    k = d.get((), Fraction(0))
    return {m: c for m, c in d.items() if m != ()}, k


def arith_ok(c):
    cons, nes = [], []
    for a, p in c.lits:
        if a.op == "gt0":
            q = a.args[0]
            if p:
                cons.append((padd(q, ONE, -1), False) if typeof(q) == INT else (q, True))
            else:
                cons.append((padd(ZERO, q, -1), False))
        elif a.op == "eq0" and not p:
            nes.append(a.args[0])
        elif a.op == "eq0":
            cons.append((a.args[0], False))
            cons.append((padd(ZERO, a.args[0], -1), False))
    if not cons and not nes:
        return True
    c.ineqs, c.nes = cons, nes
    if c.final:
        # roundings replaced by what they equal: still roundings, of something ordered with what others round
        cons = list(cons)
        for x, y in c.sub.items():
            if (x.op == "app" and x.args[0] == "round" or _bounded(x)) and tm.is_numeric(y):
                cons += [(padd(x, y, -1), False), (padd(y, x, -1), False)]
    return _arith(cons, nes, c, c.final)


def _vars(cons):
    vs = {}
    for p, *_ in cons:
        for m in to_poly(p):
            for v, e in m:
                vs[v.id] = v
    return vs


def _arith(cons, nes, c, final):
    seen = set()
    rounds = []
    ext = []
    frontier = list(cons) + [(p,) for p in nes]
    extra = []
    for _ in range(3):
        vs = [v for i, v in _vars(frontier).items() if i not in seen]
        if not vs:
            break
        seen.update(v.id for v in vs)
        frontier = []
        for f in _facts(vs):
            if len(f) == 3:
                ext.append(f)
            else:
                extra.append(f)
                frontier.append(f)
        rounds += [v for v in vs if v.op == "app" and v.args[0] == "round"]
    allc = list(cons) + extra
    if ext:
        for v, _, b in ext:
            if not fm(allc + [(padd(ZERO, b, -1), False)]):   # b > 0 proven
                allc = allc + [(v, False), (padd(b, v, -1), True)]
    small = list(cons)          # without the facts about roundings and calendar fields: cheap, decides most questions
    def unsat(*x):
        return not fm(small + list(x)) or not fm(allc + list(x))

    def learn(f):
        allc.append(f)
        small.append(f)

    if final:
        for f in _signs(allc, [p for p, _ in allc] + list(nes)):
            allc.append(f)
            small.append(f)
        for v in rounds[:16]:
            g = v.args[1]
            if unsat((g, True)):
                learn((padd(ZERO, v, -1), False))
            elif unsat((padd(ZERO, g, -1), True)):
                learn((v, False))
    if len(rounds) > 1 and final and len(rounds) <= 8:
        for x, y in itertools.permutations(rounds, 2):
            if x.args[2] is y.args[2]:
                d = padd(y.args[1], x.args[1], -1)
                if d.op == "num":
                    if d.args[0] >= 0:
                        learn((padd(y, x, -1), False))
                elif unsat((padd(ZERO, d, -1), True)):
                    learn((padd(y, x, -1), False))
    left = []
    for p in nes:
        if p.op == "num":
            if p.args[0] == 0:
                return False
        else:
            left.append(p)
    again = True
    while again and left:
        again = False
        for p in list(left):
            n = padd(ZERO, p, -1)
            up, down = not unsat((p, True)), not unsat((n, True))
            if not up and not down:
                return False
            if up != down:              # one side only: p > 0 or p < 0
                q = p if up else n
                left.remove(p)
                learn((padd(q, ONE, -1), False) if typeof(q) == INT else (q, True))
                again = len(left) > 0
    if unsat():
        return False
    if not final:
        return True
    merged = _merge_vars(allc, nes, c)
    if not merged:
        return True
    return _arith([(subst(p, merged), s) for p, s in small], [subst(p, merged) for p in nes], c, True)


def _merge_vars(cons, nes, c):
    """map numeric variables that are the same value under the context"""
    vs = list(_vars(list(cons) + [(p,) for p in nes]).values())
    out = {}
    for i, x in enumerate(vs):
        if x.op in ("sym", "num", "bv", "cv"):
            continue
        for y in vs[:i]:
            if y.op == x.op and len(y.args) == len(x.args) and y not in out:
                if x.op == "app" and x.args[0] != y.args[0]:
                    continue
                if x.op == "attr" and x.args[1] != y.args[1]:
                    continue
                if leafeq(x, y, c, arith=False):
                    out[x] = y
                    break
                if x.op == "app" and x.args[0] == "round" and x.args[2] is y.args[2] and \
                        tm.leaf_num(x.args[1]) and tm.leaf_num(y.args[1]) and \
                        _rational(padd(x.args[1], y.args[1]))[0] is ZERO:
                    out[x] = padd(ZERO, y, -1)
                    break
    return out


_FM = {}


def fm(cons):
    """is the conjunction of (poly >= 0 / > 0) satisfiable over the rationals (integers tightened)"""
    key = frozenset((p.id, s) for p, s in cons)
    r = _FM.get(key)
    if r is None:
        STATS["fm"] += 1
        r = _fm(cons)
        if len(_FM) > 60000:
            _FM.clear()
        _FM[key] = r
    return r


def _tight(d, k, s, isint):
    if isint and d:
        den = 1
        for c in d.values():
            den = den * c.denominator // tm._gcd(den, c.denominator)
        d = {m: c * den for m, c in d.items()}
        k = k * den
        g = 0
        for c in d.values():
            g = tm._gcd(abs(int(c)), g) if g else abs(int(c))
        if g > 1:
            d = {m: c / g for m, c in d.items()}
            k = k / g
        if s:
            k, s = (Fraction(-((-k) // 1)) - 1, False)
        else:
            k = Fraction(k // 1)
    return d, k, s


def _fm(cons):
    r = _elim(cons, False)
    if r is None:
        r = _elim(cons, True)
    return True if r is None else r


def _elim(cons, history):
    """Fourier-Motzkin elimination; None when it grows too much. With history, combinations of more constraints than
    eliminated variables + 1 are dropped (they are redundant)"""
    sysm = {}
    ints = {}

    def mono_int(m):
        r = ints.get(m)
        if r is None:
            r = ints[m] = all(typeof(v) == INT and e > 0 for v, e in m)
        return r

    def add(d, k, s, h, out):
        if not d:
            return k > 0 if s else k >= 0
        isint = all(mono_int(m) for m in d)
        d, k, s = _tight(d, k, s, isint)
        lead = max(abs(c) for c in d.values())
        d = {m: c / lead for m, c in d.items()}
        k = k / lead
        key = frozenset(d.items())
        o = out.get(key)
        if o is None or k < o[1] or (k == o[1] and s and not o[2]):
            out[key] = (d, k, s, h)
        return True

    for i, (p, s) in enumerate(cons):
        d, k = _lin(p)
        if not add(d, k, s, 1 << i, sysm):
            return False
    done = 0
    while sysm:
        vars_ = {}
        for d, k, s, h in sysm.values():
            for m, c in d.items():
                u = vars_.setdefault(m, [0, 0])
                u[0 if c > 0 else 1] += 1
        m = min(vars_, key=lambda v: vars_[v][0] * vars_[v][1] - vars_[v][0] - vars_[v][1])
        pos, neg, rest = [], [], {}
        for key, t in sysm.items():
            c = t[0].get(m)
            if c is None:
                rest[key] = t
            elif c > 0:
                pos.append(t)
            else:
                neg.append(t)
        if len(pos) * len(neg) > (9000 if history else 1200):
            return None
        done += 1
        for a in pos:
            for b in neg:
                h = a[3] | b[3]
                if history and h.bit_count() > done + 1:
                    continue
                ca, cb = a[0][m], -b[0][m]
                d = {}
                for x, y in a[0].items():
                    d[x] = d.get(x, 0) + y * cb
                for x, y in b[0].items():
                    d[x] = d.get(x, 0) + y * ca
                d = {x: y for x, y in d.items() if y}
                if not add(d, a[1] * cb + b[1] * ca, a[2] or b[2], h, rest):
                    return False
        sysm = rest
    return True


# --------------------------------------------------------------------------- equality
def same_args(u, w, c):
    if isinstance(u, T) and isinstance(w, T):
        return same(u, w, c)
    if isinstance(u, tuple) and isinstance(w, tuple):
        return len(u) == len(w) and all(same_args(a, b, c) for a, b in zip(u, w))
    return u == w


def same(a, b, c):
    """a and b denote the same value under context c"""
    if a is b:
        return True
    if c.sub:
        a, b = subst(a, c.sub, c.memo), subst(b, c.sub, c.memo)
        if a is b:
            return True
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = c.same_memo.get(k)
    if r is None:
        c.same_memo[k] = False          # cycles cannot occur; guards pathological recursion
        r = c.same_memo[k] = _same(a, b, c)
    return r


def _same(a, b, c):
    if a.op != "ite" and b.op != "ite":
        return leafeq(a, b, c)
    base = c.lits + _sub_lits(c.sub)
    bad = differ(a, b, base)
    return bad is None


def differ(a, b, lits, budget=4000):
    """a path (list of literals) consistent with lits on which a and b differ, or None"""
    memo_pairs = {}
    n = [0]

    def go(x, y, path):
        n[0] += 1
        if n[0] > budget:
            raise Budget()
        if x is y:
            return None
        if x.op == "ite" or y.op == "ite":
            at = x.args[0] if x.op == "ite" and (y.op != "ite" or x.args[0].id <= y.args[0].id) else y.args[0]
            for pol in (True, False):
                x2 = (x.args[1] if pol else x.args[2]) if x.op == "ite" and x.args[0] is at else x
                y2 = (y.args[1] if pol else y.args[2]) if y.op == "ite" and y.args[0] is at else y
                if x2 is y2:
                    continue
                p2 = path + [(at, pol)]
                if not consistent(lits + p2):
                    continue
                r = go(x2, y2, p2)
                if r is not None:
                    return r
            return None
        ctx = context(lits + path, True)
        if not ctx.ok:
            return None
        if leafeq(x, y, ctx):
            return None
        return path, x, y

    return go(a, b, [])


class Budget(Exception):
    pass


def leafeq(x, y, c, arith=True):
    if x is y:
        return True
    if c.sub:
        x, y = subst(x, c.sub, c.memo), subst(y, c.sub, c.memo)
        if x is y:
            return True
        if x.op == "ite" or y.op == "ite":
            return same(x, y, c)
    if x.op in ("undef", "err") or y.op in ("undef", "err"):
        return x.op == y.op
    if (x in (TRUE, FALSE) or typeof(x) == tm.BOOL) and (y in (TRUE, FALSE) or typeof(y) == tm.BOOL):
        bx, by = tm.to_bool(x), tm.to_bool(y)
        if bx is by:
            return True
        if bx is not x or by is not y:
            return same(bx, by, c)
    numx = tm.is_numeric(x) or typeof(x) in (DT, TIME)
    numy = tm.is_numeric(y) or typeof(y) in (DT, TIME)
    if arith and (numx or numy) and tm.leaf_num(x) and tm.leaf_num(y):
        px, py = (x, y)
        d = padd(px, py, -1)
        if d.op == "num":
            return d.args[0] == 0
        if _rational(d)[0] is ZERO:
            return True
        key = d.id
        if key not in c.same_neg:
            cons = getattr(c, "ineqs", None) or []
            nes = getattr(c, "nes", None) or []
            if not _arith(list(cons), list(nes) + [d], c, True):
                return True
            c.same_neg.add(key)
        if x.op != y.op or x.op == "poly":
            return False
    if x.op != y.op or len(x.args) != len(y.args):
        return False
    if x.op in ("num", "const", "sym", "enum", "new", "bv", "cv", "poly", "class", "ext", "builtin", "exc"):
        return False
    # binders: align
    b = tm._binder(x)
    if b is not None:
        bx, by = x.args[b[0]], y.args[b[0]]
        if bx is not by:
            if bx.args[1:] != by.args[1:]:
                return False
            w = mk("bv", max(bx.args[0], by.args[0]), *bx.args[1:])
            x, y = _rebind(x, b, w), _rebind(y, b, w)
            if x is y:
                return True
    return all(same_args(u, w, c) for u, w in zip(x.args, y.args))


def _rational(p, depth=0):
    """p as numerator / denominator, sums inside divisions multiplied out"""
    d = to_poly(p)
    if depth > 4 or len(d) > 24 or not any(e < 0 or v.op == "poly" for m in d for v, e in m):
        return p, ONE
    num, den = ZERO, ONE
    for m, c in d.items():
        n, q = tm.const_fr(c), ONE
        for v, e in m:
            vn, vd = _rational(v, depth + 1) if v.op == "poly" else (v, ONE)
            if e < 0:
                vn, vd = vd, vn
            for _ in range(abs(e)):
                n, q = tm.pmul(n, vn), tm.pmul(q, vd)
        if q is not den:
            num, n, den = tm.pmul(num, q), tm.pmul(n, den), tm.pmul(den, q)
        num = padd(num, n)
        if len(to_poly(num)) > 200:
            return p, ONE
    return num, den


def _rebind(t, b, w):
    old = t.args[b[0]]
    args = list(t.args)
    for i in b[1]:
        args[i] = subst(args[i], {old: w})
    args[b[0]] = w
    return mk(t.op, *args)


# --------------------------------------------------------------------------- diagrams
def find_path(v, lits=(), final=True, budget=6000):
    """a feasible path of the boolean diagram v to TRUE (list of literals) or None"""
    n = [0]
    lits = list(lits)

    def go(x, path):
        n[0] += 1
        if n[0] > budget:
            raise Budget()
        if x is FALSE or x.op in ("err", "undef"):
            return None
        if x.op != "ite":
            if x is not TRUE:
                raise ValueError("not boolean: %r" % x)
            return path if consistent(lits + path, final) else None
        a, hi, lo = x.args
        for pol, nx in ((True, hi), (False, lo)):
            if nx is FALSE:
                continue
            p2 = path + [(a, pol)]
            if nx is not TRUE and not consistent(lits + p2):
                continue
            r = go(nx, p2)
            if r is not None:
                return r
        return None

    return go(v, [])


def feasible(v, lits=()):
    if v is FALSE:
        return False
    if v is TRUE and not lits:
        return True
    try:
        return find_path(tm.to_bool(v), lits) is not None
    except Budget:
        return True


def simplify(v, pc):
    """drop infeasible branches of v under pc (both diagrams)"""
    v = restrict(v, pc)
    return v
