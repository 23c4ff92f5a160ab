"""Abstract interpreter: statements and calls of the resolved program -> value graph.

Control-flow merges join the abstract stores with gated values; calls are resolved through the
class table and inlined; loops over collections of unknown size are summarised into closed terms
(map / sum / any / first / takewhile / fold).  Nothing of the analysed package is executed.
"""
import ast

from . import terms as tm
from . import theory
from .program import PLAIN_DECORATORS, Func, BUILTIN_EXC, REF_KEYED, Broken
from .terms import (T, mk, const, ite, AND, OR, NOT, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, EMPTY, EMPTYD, lift, restrict,
                    arith, eq, gt, ge, isnone, truth, rnd, typeof, unopt, ANY, NUM, INT, FLOAT, BOOL, STR, DT, DATE,
                    TIME, mkseq, item, opq, concat, mkdict, d_haskey, d_val, subst, contains, to_bool, padd, mkstr)


class Undecided(Exception):
    pass


LOG = ("#log",)


class St:
    __slots__ = ("pc", "store")

    def __init__(self, pc, store):
        self.pc, self.store = pc, store

    def copy(self, pc=None):
        return St(self.pc if pc is None else pc, dict(self.store))

    def become(self, o):
        self.pc, self.store = o.pc, o.store


class Out:
    __slots__ = ("ret", "brk", "cont")

    def __init__(self, ret=None):
        self.ret = [] if ret is None else ret
        self.brk, self.cont = [], []


UNITS = {"days": 86400, "seconds": 1, "microseconds": None, "milliseconds": None, "minutes": 60, "hours": 3600,
         "weeks": 604800}
SHARED = 100000         # objects made once and shared are numbered from here
SIDE_FREE = ("logging", "gc", "warnings", "sys", "time")


class Interp:
    def __init__(self, prog, bound=None):
        self.prog = prog
        self.bound = bound
        self.depth = 0
        self.counters = {}
        self.base = 0
        self.fid_n = 0
        self.sym_n = 0
        self.funcs = []
        self.func_ix = {}
        self.stack = []
        self.sinks = []
        self.observed = {}
        self.visited = {}
        self.call_sites = 0
        self.prov = {}
        self.checks = []
        self.frames = {}
        self.steps = 0
        self.loops = 0
        self.captured = set()
        self.lazies = []
        self.sources = {}
        self.users = {}     # frame of a generator at work -> what is done with an element
        self.step_limit = 60000 if bound is None or max(bound) < 12 else 2000000
        self.used_bound = False
        self.struct_base = None
        self.writes = set()
        self.shared = {}
        self.unseen = set()         # shared values of module variables and class bodies: not part of any object
        self.class_written = set()
        self.class_props = {}
        self.global_written = set()
        self.global_names = {}
        self.shared_store = {}
        self.unknown = set()     # attributes of arbitrary instances that are not part of the documented state

    # ------------------------------------------------------------------ utilities
    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Undecided("analysis budget exceeded")

    def num(self, cls):
        self.counters[cls] = self.counters.get(cls, self.base) + 1
        return self.counters[cls]

    def new(self, cls):
        return mk("new", cls, self.num(cls))

    def fresh(self, name, ty):
        self.sym_n += 1
        return mk("sym", name, ty)

    def closure(self, st, F, fid):
        """a function made in a function: its defaults are computed there and then"""
        a = F.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        F.defs = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            F.defs[p] = self.ev(st, d)
        return self.func_leaf(F, fid)

    def func_leaf(self, F, fid=None):
        k = (id(F) if fid is None else id(F.node), fid)
        if F.defs:
            k += tuple(v.id for v in F.defs.values())
        i = self.func_ix.get(k)
        if i is None:
            i = self.func_ix[k] = len(self.funcs)
            self.funcs.append((F, fid))
        return mk("func", i, F.qual)

    def default(self, key):
        v = self.shared_store.get(key)
        if v is not None:
            return v
        if key[0] == "f":
            return UNDEF if key[1].op in ("new", "class", "ext") else mk("attr", key[1], key[2])
        if key[0] == "c":
            return self.default_content(key[1])
        if key[0] in ("#log", "y"):
            return EMPTY
        return UNDEF

    def default_content(self, ref):
        ty = unopt(typeof(ref))
        if ty[0] == "dict":
            m = mk("mapof", ref)
            if self.bound is not None:
                n = self.bound[0] if not self._nested(ref) else self.bound[1]
                self.used_bound = True
                ks = mk("keys", m)
                return mkdict(NONE, [(mk("idx", ks, const(i)), mk("val", m, mk("idx", ks, const(i)))) for i in range(n)])
            return mkdict(m)
        s = mk("seqof", ref)
        if ref.op == "new":
            return EMPTY
        if self.bound is not None:
            n = self.bound[0] if not self._nested(ref) else self.bound[1]
            self.used_bound = True
            return mkseq(tuple(item(mk("idx", s, const(i))) for i in range(n)))
        return opq(s)

    def _nested(self, ref):
        return any(x.op in ("idx", "val", "elem", "first") for x in tm.subterms(ref))

    def join(self, sts):
        sts = [s for s in sts if s.pc is not FALSE]
        if not sts:
            return St(FALSE, {})
        if len(sts) == 1:
            return sts[0]
        pc = FALSE
        for s in sts:
            pc = OR(pc, s.pc)
        keys = {}
        for s in sts:
            for k in s.store:
                keys[k] = 1
        store = {}
        for k in keys:
            vals = [s.store.get(k) for s in sts]
            vals = [self.default(k) if v is None else v for v in vals]
            v = vals[-1]
            if any(x is not v for x in vals):
                for s, x in list(zip(sts, vals))[-2::-1]:
                    v = ite(s.pc, x, v)
                v = restrict(v, pc)
            store[k] = v
        return St(pc, store)

    def join_vals(self, prs):
        """[(St, value)] -> (St, value)"""
        prs = [(s, v) for s, v in prs if s.pc is not FALSE]
        if not prs:
            return St(FALSE, {}), UNDEF
        if len(prs) == 1:
            return prs[0]
        for s, v in prs:
            s.store[("tmp",)] = v
        j = self.join([s for s, _ in prs])
        v = j.store.pop(("tmp",))
        return j, v

    def split(self, st, v):
        """[(leaf, condition)] for the gated value v under st.pc"""
        v = restrict(v, st.pc)
        if v.op != "ite":
            return [(v, TRUE)]
        ls = tm.leaves(v)
        return [(l, lift(lambda x, l=l: TRUE if x is l else FALSE, v)) for l in ls]

    def dispatch(self, st, v, fn):
        if st.pc is FALSE:
            return UNDEF
        parts = self.split(st, v)
        if len(parts) == 1:
            return fn(st, parts[0][0])
        prs = []
        for l, c in parts:
            s = st.copy(AND(st.pc, c))
            if s.pc is FALSE or not theory.feasible(s.pc):
                continue
            r = fn(s, l)
            prs.append((s, r))
        j, r = self.join_vals(prs)
        st.become(j)
        return r

    def raise_if(self, st, cond, exc, node=None):
        if st.pc is FALSE:
            return
        pc = AND(st.pc, cond)
        if pc is not FALSE and theory.feasible(pc):
            self.sinks[-1].append((st.copy(pc), exc, self.loc(node)))
        st.pc = AND(st.pc, NOT(cond))

    def raise_(self, st, exc, node=None):
        self.raise_if(st, TRUE, exc, node)

    def exc(self, name):
        return mk("exc", name)

    def loc(self, node):
        if self.stack:
            F = self.stack[-1][0]
            return "%s:%s (%s)" % (F.module.rel, getattr(node, "lineno", "?"), F.qual)
        return "?"

    def note(self, c, node):
        for a in tm.atoms(c):
            if a.id not in self.prov:
                self.prov[a.id] = self.loc(node)

    # ------------------------------------------------------------------ scopes
    def frame(self):
        return self.stack[-1]

    def var_key(self, name, write=False):
        F, fid, parent, nl = self.stack[-1]
        if write and name not in nl:
            return ("v", fid, name)
        if write or True:
            f = fid if name not in nl else parent
            return ("v", f, name)

    def load_name(self, st, name, node):
        F, fid, parent, nl = self.stack[-1]
        f = fid
        while f is not None:
            v = st.store.get(("v", f, name))
            if v is not None:
                v = restrict(v, st.pc)
                if v is UNDEF or any(l is UNDEF for l in tm.leaves(v)):
                    c = lift(lambda x: TRUE if x is UNDEF else FALSE, v)
                    self.raise_if(st, c, self.exc("UnboundLocalError"), node)
                    v = restrict(v, st.pc)
                return v
            f = self.frames[f][0]
        return self.load_global(st, F.module, name, node)

    def load_global(self, st, m, name, node):
        c = self.stack[-1][0].cls if self.stack and self.stack[-1][0].name == "<class>" else None
        if c is not None and (name in c.methods or name in c.consts):
            return self.func_leaf(c.methods[name]) if name in c.methods else self.class_body(st, c, name)
        if name in m.odd:
            raise Undecided("what the module %s makes of %s" % (m.name, name))
        if (m.name, name) in self.global_written:
            v = restrict(self.cell(st, self.module_cell(m, name), None), st.pc)
            if any(l is UNDEF for l in tm.leaves(v)):
                self.raise_if(st, lift(lambda x: TRUE if x is UNDEF else FALSE, v), self.exc("NameError"), node)
                v = restrict(v, st.pc)
            return v
        r = self.prog.resolve(m, name)
        if r is None:
            if name in BUILTIN_EXC:
                return mk("ext", "exc." + name)
            return mk("builtin", name)
        k = r[0]
        if k == "class":
            return mk("class", r[1].name)
        if k == "func":
            return self.func_leaf(r[1])
        if k == "const":
            return self.module_const(st, r[2], r[1])
        if k == "module":
            return mk("ext", "module:" + r[1])
        return mk("ext", r[1])

    def module_const(self, st, m, x):
        self.unseen.add(id(x))
        return self.once(st, x, lambda: self.in_module(st, m, x))

    def global_set(self, st, m, name):
        """the module variable is assigned by some function: from now on it is looked up in the state"""
        if (m.name, name) in self.global_written:
            return
        r = self.prog.resolve(m, name)
        if r is not None and r[0] != "const":
            raise Undecided("assignment to the module attribute %s" % name)
        self.shared_store[self.module_cell(m, name)] = UNDEF if r is None else self.module_const(st, r[2], r[1])
        self.global_written.add((m.name, name))

    def once(self, st, node, f):
        """values of defaults, class attributes and globals are made once and shared by all their users"""
        if isinstance(node, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp)):
            return f()
        r = self.shared.get(id(node))
        if r is None:
            before = dict(st.store)
            counters, base = self.counters, self.base
            self.counters, self.base = {}, SHARED * (len(self.shared) + 1)
            try:
                v = f()
            finally:
                self.counters, self.base = counters, base
            r = self.shared[id(node)] = (v, {k: x for k, x in st.store.items() if before.get(k) is not x and k != LOG})
            self.shared_store.update(r[1])
        else:
            for k, x in r[1].items():
                if k not in st.store:
                    st.store[k] = x
        return r[0]

    def in_module(self, st, m, node, cls=None):
        self.fid_n += 1
        fid = self.fid_n
        self.frames[fid] = (None,)
        F = Func("<module>", m.tree, m) if cls is None else Func("<class>", m.tree, m, cls)
        self.stack.append((F, fid, None, ()))
        try:
            return self.ev(st, node)
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        def f(s, l):
            ty = unopt(typeof(l))
            if ty[0] in ("list", "dict") and l.op not in ("seq", "dict"):
                n = isnone(l)
                if l.op == "new" and l.args[0] == "gen":
                    return TRUE
                c = self.content(s, l)
                return AND(NOT(n), truth(c))
            if l.op == "new" and l.args[0] == "set":
                return truth(self.content(s, l))
            if ty[0] == "obj":
                for mname in ("__bool__", "__len__"):
                    F = self.prog.find_method(ty[1], mname)
                    if F:
                        r = self.call_func(s, F, None, l, [], {}, node)
                        return truth(r)
            r = truth(l)
            if r.op == "err":
                self.raise_(s, self.exc("TypeError"), node)
                return FALSE
            return r

        v = restrict(v, st.pc)
        simple = all(x.op in ("const", "num", "poly", "enum", "sym", "tuple", "seq") and typeof(x)[0] not in ("list", "dict", "obj", "opt")
                     for x in tm.leaves(v))
        r = truth(v) if simple else self.dispatch(st, v, f)
        r = restrict(r, st.pc)
        bad = [l for l in tm.leaves(r) if l not in (TRUE, FALSE)]
        if bad:
            c = lift(lambda x: FALSE if x in (TRUE, FALSE) else TRUE, r)
            self.raise_if(st, c, self.exc("TypeError"), node)
            r = restrict(lift(lambda x: x if x in (TRUE, FALSE) else FALSE, r), st.pc)
        return r

    def guard(self, st, v, node=None):
        """raise on error leaves"""
        if v.op != "ite" and v.op != "err":
            return v
        if any(l.op == "err" for l in tm.leaves(v)):
            c = lift(lambda x: TRUE if x.op == "err" else FALSE, v)
            w = [l for l in tm.leaves(v) if l.op == "err"][0].args[0]
            self.raise_if(st, c, self.exc(w if w in BUILTIN_EXC else "TypeError"), node)
            v = restrict(v, st.pc)
            if v.op == "err":
                return UNDEF
        return v

    def cond(self, st, node):
        c = self.truth(st, self.ev(st, node), node)
        self.note(c, node)
        return c

    # ------------------------------------------------------------------ heap
    def content(self, st, ref):
        k = ("c", ref)
        v = st.store.get(k)
        if v is None:
            v = self.default(k)
        v = restrict(v, st.pc)
        if ref in self.sources:
            for src, was in self.sources[ref]:
                if self.content(st, src) is not restrict(was, st.pc):
                    raise Undecided("a collection that changed before being gone through")
        if ref.op == "new" and ref.args[0] == "gen" and any(l.op == "lazy" for l in tm.leaves(v)):
            if v.op != "lazy":
                raise Undecided("a generator that may have been used already")
            self.force(st, ref, v)
            v = restrict(st.store[k], st.pc)
        return v

    # ------------------------------------------------------------------ generators: what they do is done as they are used
    def lazy(self, st, run):
        """run(st, emit, out, orelse) makes the elements one by one; emit(st, element, out) uses one"""
        ref = self.new("gen")
        self.lazies.append((run, list(self.stack)))
        st.store[("c", ref)] = mk("lazy", len(self.lazies) - 1)
        return ref

    def force(self, st, ref, v):
        key = ("c", ref)
        st.store[key] = EMPTY

        def emit(s, x, o):
            s.store[key] = concat(s.store[key], mkseq((item(x),)))

        self.lazies[v.args[0]][0](st, emit, Out(), None)
        if st.pc is FALSE:
            st.store[key] = EMPTY

    def iterate(self, st, it, emit, out, orelse, node):
        """use the elements of an iterable one after the other"""
        it = restrict(it, st.pc)
        if it.op == "new" and it.args[0] == "gen":
            v = restrict(st.store.get(("c", it), EMPTY), st.pc)
            if v.op == "lazy":
                st.store[("c", it)] = EMPTY
                here = self.stack

                def at_home(f):
                    def g(*a):
                        was, self.stack = self.stack, here
                        try:
                            return f(*a)
                        finally:
                            self.stack = was
                    return g

                self.lazies[v.args[0]][0](st, at_home(emit), out, at_home(orelse) if orelse else None)
                return
        cell = []

        def bind(s, v):
            cell[:] = [v]

        use = lambda s, o: emit(s, cell[0], o)
        done = []
        for l, c in self.split(st, it):
            s = st.copy(AND(st.pc, c)) if l is not it else st
            if s.pc is FALSE:
                continue
            seq = self.to_seq(s, l, node)
            body = use
            for r, _ in self.sources.pop(l, ()):
                body = self.watched(s, r, body)
            self.for_loop(s, seq, bind, body, out, orelse, l if self.is_live(l) else None)
            done.append(s)
        st.become(self.join(done))

    def is_live(self, l):
        return unopt(typeof(l))[0] in ("list", "dict") and l.op not in ("seq", "dict", "ret", "ite") and not (
            l.op == "new" and l.args[0] not in ("list", "dict"))

    def from_live(self, st, gen, args):
        """*gen* goes through the collections *args*, which may change before it has"""
        refs = []
        for l in (x for a in args for x in tm.leaves(restrict(a, st.pc))):
            if l in self.sources:
                refs += [r for r, _ in self.sources[l]]
            elif self.is_live(l):
                refs.append(l)
        if refs and gen.op == "new":
            self.sources[gen] = [(r, self.content(st, r)) for r in refs]
        return gen

    def set_content(self, st, ref, v):
        st.store[("c", ref)] = v

    def new_list(self, st, seq):
        r = self.new("list")
        st.store[("c", r)] = seq
        return r

    def new_dict(self, st, d):
        r = self.new("dict")
        st.store[("c", r)] = d
        return r

    def not_none(self, st, l, node):
        if typeof(l)[0] == "opt" or l is NONE:
            self.raise_if(st, isnone(l), self.exc("AttributeError"), node)
        return l

    def load_attr(self, st, base, name, node=None):
        return self.dispatch(st, base, lambda s, b: self.load_attr_leaf(s, b, name, node))

    def load_attr_leaf(self, st, b, name, node):
        op = b.op
        if b is NONE:
            self.raise_(st, self.exc("AttributeError"), node)
            return UNDEF
        if op in ("undef", "err"):
            return UNDEF
        if op == "class":
            return self.class_attr(st, b.args[0], name, node)
        if op == "enum":
            if name == "name":
                return const(b.args[1])
            if name == "value":
                c = self.prog.classes[b.args[0]]
                return self.in_module(st, c.module, c.members[b.args[1]])
        if typeof(b)[0] == "enum" and typeof(b)[1] in self.prog.classes and name not in ("name", "value"):
            p = self.prog.find_prop(typeof(b)[1], name)
            if p is not None and p.get is not None:
                return self.call_func(st, p.get, None, b, [], {}, node)
            if self.prog.find_method(typeof(b)[1], name) is not None:
                return mk("meth", b, name)
        if op == "ext":
            d = b.args[0]
            if d.startswith("module:"):
                return self.load_global(st, self.prog.modules[d[7:]], name, node)
            return mk("ext", d + "." + name)
        if op == "super":
            return self.super_attr(st, b.args[0], b.args[1], name, node)
        if op == "exc":
            return mk("app", "excattr", b, const(name))
        if op == "app" and b.args[0] == "uuid4":
            if name == "hex":
                return mk("app", "uuid.hex", b)
            raise Undecided("attribute %s of a unique identifier" % name)
        ty = typeof(b)
        if ty[0] == "opt":
            self.raise_if(st, isnone(b), self.exc("AttributeError"), node)
            ty = ty[1]
        if ty[0] == "obj":
            if ty[1] in self.prog.odd_classes:
                raise Undecided("attribute %s of %s, which does not only hold what its body defines" % (name, ty[1]))
            sv = st.store.get(("p", b, name))
            if sv is not None:
                return sv
            if name == "__class__":
                return mk("class", ty[1])
            p = self.prog.find_prop(ty[1], name)
            if p is not None and p.get is not None:
                if name == "ref" and self.ref_keyed(b) is not None:
                    return self.ref_keyed(b)
                return self.call_func(st, p.get, None, b, [], {}, node)
            p = self.class_prop(st, ty[1], name, node)
            if p is not None:
                return self.call(st, p.args[0], [b], {}, node)
            v = st.store.get(("f", b, name))
            if v is None:
                F = self.prog.find_method(ty[1], name)
                if F is not None:
                    if F.kind == "static":
                        return self.func_leaf(F)
                    return mk("meth", b, name)
                if ty[1] in self.prog.classes and (op == "new" or not self.declared(ty[1], name)):
                    v = self.class_value(st, ty[1], name, node)
                    if v is not None:
                        return lift(lambda x: mk("partial", x, (b,), ()) if x.op == "func" else x, v)
                if op == "new":
                    if ty[1] in self.prog.classes:
                        self.raise_(st, self.exc("AttributeError"), node)
                        return UNDEF
                    return mk("meth", b, name)
                if ty[1] not in self.prog.classes:
                    return mk("meth", b, name)
                if name.startswith("_") and not self.declared(ty[1], name):
                    raise Undecided("private attribute %s.%s of an arbitrary instance is unknown" % (ty[1], name))
                if self.prog.special_field(ty[1], name) and not self.prog.deque_field(ty[1], name)[0]:
                    raise Undecided("what %s.%s of an arbitrary instance holds" % (ty[1], name))
                if not self.prog.known_field(ty[1], name):
                    if self.prog.nowhere(ty[1], name):
                        self.raise_(st, self.exc("AttributeError"), node)
                        return UNDEF
                    self.unknown.add(name)
                return mk("attr", b, name)
            v = restrict(v, st.pc)
            if any(l is UNDEF for l in tm.leaves(v)):
                c = lift(lambda x: TRUE if x is UNDEF else FALSE, v)
                self.raise_if(st, c, self.exc("AttributeError"), node)
                v = restrict(v, st.pc)
            return v
        if ty == DT or ty[0] == "pydt":
            from .builtins_ import dt_attr
            if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
                return dt_attr(b, name)
            if name == "fold":
                return mk("app", "dt.fold", b)
            if name == "tzinfo":
                return mk("app", "dt.tzinfo", b) if ty == DT else mk("attr", b, name)
            if name in ("datetime", "naive", "timezone", "tz"):
                return mk("app", "dt." + name, b)
            return mk("meth", b, name)
        if ty in (DATE, TIME) and name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            from .builtins_ import dt_attr
            return dt_attr(b, name)
        if ty == ANY and op in ("sym", "attr", "idx", "elem", "val", "first", "ret", "bv"):
            v = st.store.get(("f", b, name))
            return v if v is not None else mk("attr", b, name)
        if ty[0] == "enum" and name in ("name", "value"):
            c = self.prog.classes.get(ty[1])
            if c is None or not c.members:
                return mk("app", "enum." + name, b)
            r = None
            for mname in reversed(list(c.members)):
                v = const(mname) if name == "name" else self.in_module(st, c.module, c.members[mname])
                r = v if r is None else ite(to_bool(eq(b, mk("enum", ty[1], mname))), v, r)
            return restrict(r, st.pc)
        return mk("meth", b, name)

    def declared(self, cls, name):
        """is the private field assigned by some constructor-reachable code of the class"""
        c = self.prog.classes[cls]
        for b in c.mro:
            for n in ast.walk(b.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
        return False

    def ref_keyed(self, b):
        if b.op == "val" and b.args[0].op == "mapof":
            m = b.args[0].args[0]
            if m.op == "attr":
                ty = unopt(typeof(m.args[0]))
                if ty[0] == "obj" and ty[1] in self.prog.classes:
                    for x in self.prog.classes[ty[1]].mro:
                        if (x.name, m.args[1]) in REF_KEYED:
                            return b.args[1]
            elif m.op == "sym" and m.args[0].startswith("registry"):
                return b.args[1]
        return None

    def class_attr(self, st, cls, name, node):
        c = self.prog.classes.get(cls)
        if c is None:
            return mk("ext", cls + "." + name)
        if name == "__name__" or name == "__qualname__":
            return const(cls)
        if c.is_enum and name in c.members:
            return mk("enum", cls, name)
        if c.is_enum and name == "__members__":
            raise Undecided("enum __members__")
        F = self.prog.find_method(cls, name)
        if F:
            if F.kind == "classm":
                return mk("meth", mk("class", cls), name)
            return self.func_leaf(F)
        p = self.prog.find_prop(cls, name)
        if p:
            return mk("propobj", cls, name)
        v = self.class_value(st, cls, name, node)
        if v is not None:
            return v
        if name == "__init__":
            return mk("builtin", "object.__init__")
        self.raise_(st, self.exc("AttributeError"), node)
        return UNDEF

    def class_value(self, st, cls, name, node):
        """value of the class attribute: what was assigned since, or what the class body gives"""
        c = self.prog.classes.get(cls)
        r = None
        for b in reversed(c.mro if c else []):
            v = None
            if (b.name, name) in self.class_written:
                v = self.cell(st, ("f", mk("class", b.name), name), lambda: self.class_body(st, b, name))
                v = restrict(v, st.pc)
            elif name in b.consts:
                v = self.class_body(st, b, name)
            if v is not None:
                r = v if r is None else lift(lambda x, r=r: r if x is UNDEF else x, v)
        if r is None:
            return None
        r = restrict(r, st.pc)
        if any(l is UNDEF for l in tm.leaves(r)):
            self.raise_if(st, lift(lambda x: TRUE if x is UNDEF else FALSE, r), self.exc("AttributeError"), node)
            r = restrict(r, st.pc)
        return r

    def class_body(self, st, b, name):
        if name not in b.consts:
            return UNDEF
        x = b.consts[name]
        self.unseen.add(id(x))
        return self.once(st, x, lambda: self.in_module(st, b.module, x, b))

    def class_prop(self, st, cls, name, node):
        """a property made otherwise than by `@property`: by a decorator of the package, or called in the class body"""
        for b in (self.prog.classes[cls].mro if cls in self.prog.classes else ()):
            F = b.methods.get(name)
            if F is not None:
                if F.memo != "?" or F.kind != "method":
                    return None
                v = self.once(st, F.node, lambda: self.decorated(st, F))
                return v if v.op == "prop" else None
            if name in b.consts:
                if not isinstance(b.consts[name], ast.Call) or (b.name, name) in self.class_written:
                    return None
                k = (b.name, name)
                if k not in self.class_props:
                    self.class_props[k] = self.class_body(st, b, name)
                v = self.class_props[k]
                return v if v.op == "prop" else None
        return None

    def cell(self, st, key, make):
        v = st.store.get(key)
        if v is None:
            if key not in self.shared_store:
                self.shared_store[key] = make()
            v = self.shared_store[key]
        return v

    def module_cell(self, m, name):
        return ("f", mk("ext", "module:" + m.name), name)

    def super_attr(self, st, obj, after, name, node):
        cls = unopt(typeof(obj))[1]
        p = self.prog.find_prop(cls, name, after=after)
        if p and p.get:
            return self.call_func(st, p.get, None, obj, [], {}, node)
        for b in self.prog.classes[cls].mro:
            if (name in b.consts or name in b.methods) and self.class_prop(st, b.name, name, node) is not None:
                raise Undecided("super().%s" % name)
        F = self.prog.find_method(cls, name, after=after)
        if F is None:
            if name == "__init__":
                return mk("builtin", "object.__init__")
            self.raise_(st, self.exc("AttributeError"), node)
            return UNDEF
        return mk("supermeth", obj, after, name)

    def store_attr(self, st, base, name, v, node):
        def f(s, b):
            if b is NONE:
                self.raise_(s, self.exc("AttributeError"), node)
                return NONE
            ty = typeof(b)
            if ty[0] == "opt":
                self.raise_if(s, isnone(b), self.exc("AttributeError"), node)
                ty = ty[1]
            if ty[0] == "obj":
                p = self.prog.find_prop(ty[1], name)
                if p is not None:
                    if p.set is None:
                        self.raise_(s, self.exc("AttributeError"), node)
                        return NONE
                    self.call_func(s, p.set, None, b, [v], {}, node)
                    return NONE
                p = self.class_prop(s, ty[1], name, node)
                if p is not None:
                    self.call(s, p.args[1], [b, v], {}, node)
                    return NONE
            if b.op == "class" and b.args[0] in self.prog.classes:
                c = self.prog.classes[b.args[0]]
                if c.is_enum or c.is_exc or self.prog.find_prop(c.name, name) or self.prog.find_method(c.name, name):
                    raise Undecided("assignment to the class attribute %s" % name)
                self.class_written.add((c.name, name))
                self.cell(s, ("f", b, name), lambda: self.class_body(s, c, name))
                s.store[("f", b, name)] = v
                return NONE
            if b.op == "ext" and b.args[0][:7] == "module:" and b.args[0][7:] in self.prog.modules:
                self.global_set(s, self.prog.modules[b.args[0][7:]], name)
                s.store[("f", b, name)] = v
                return NONE
            if b.op in ("class", "ext"):
                raise Undecided("assignment to a class or module attribute %s" % name)
            if self.stack:
                self.writes.add((ty[1] if ty[0] == "obj" else "?", name, self.loc(node)))
            s.store[("f", b, name)] = v
            return NONE

        self.dispatch(st, base, f)

    # ------------------------------------------------------------------ sequences
    def new_set(self, st, seq):
        """*seq* without the items equal to an earlier one, in the order they came; iterating gives another order"""
        r = self.new("set")
        st.store[("c", r)] = EMPTY
        self.set_add(st, r, seq)
        return r

    def set_add(self, st, ref, seq):
        def add(have, more):
            if have.op != "seq" or more.op != "seq" or any(x.op != "item" for x in have.args + more.args):
                return concat(have, more)
            if any(tm.leaves(x.args[0])[0].op == "new" and x.args[0].args[0] in ("list", "dict", "set") for x in more.args):
                raise Undecided("set of collections")
            for x in more.args:
                have = lift(lambda h: ite(self.seq_in(st, x.args[0], h, None), h, concat(h, mkseq((x,)))), have)
            return have
        st.store[("c", ref)] = restrict(lift(add, self.content(st, ref), restrict(seq, st.pc)), st.pc)

    def set_items(self, st, c, ordered):
        """the items of a set: in no particular order, which differs between runs"""
        if ordered is None:
            return c
        ls = tm.leaves(c)
        if any(l.op != "seq" or any(x.op != "item" for x in l.args) for l in ls):
            raise Undecided("iteration over a set")
        if all(len(l.args) <= 1 for l in ls) or not ordered:
            return c
        if any(len(l.args) > 3 for l in ls):
            raise Undecided("iteration over a set")

        def ident(x):
            def one(l):
                if tm.is_numeric(l) or l is NONE or typeof(l)[0] not in ("obj", "str"):
                    raise Undecided("iteration over a set")
                return mk("app", "id", l)
            return lift(one, x)

        def f(l):
            xs = [x.args[0] for x in l.args]
            for i in range(len(xs)):
                for j in range(len(xs) - 1 - i):
                    x, y = xs[j], xs[j + 1]
                    swap = to_bool(gt(ident(x), ident(y)))
                    xs[j], xs[j + 1] = ite(swap, y, x), ite(swap, x, y)
            return mkseq(tuple(item(x) for x in xs))
        return lift(f, c)

    def to_seq(self, st, v, node=None, consume=True, ordered=True):
        def f(s, l):
            if l.op == "seq":
                return l
            if l.op == "new" and l.args[0] == "set":
                return self.set_items(s, self.content(s, l), ordered)
            if l.op == "tuple":
                return mkseq(tuple(item(x) for x in l.args))
            if l.op == "const" and isinstance(l.args[0], str):
                return mkseq(tuple(item(const(ch)) for ch in l.args[0]))
            if l.op == "class" and self.prog.classes[l.args[0]].is_enum:
                return mkseq(tuple(item(mk("enum", l.args[0], m)) for m in self.prog.classes[l.args[0]].members))
            if l is NONE:
                self.raise_(s, self.exc("TypeError"), node)
                return EMPTY
            ty = typeof(l)
            if ty[0] == "opt":
                self.raise_if(s, isnone(l), self.exc("TypeError"), node)
                ty = ty[1]
            if l.op == "new" and l.args[0] == "gen":
                c = self.content(s, l)
                if consume:
                    self.set_content(s, l, EMPTY)
                return c
            if l.op == "dict" or ty[0] == "dict":
                d = l if l.op == "dict" else self.content(s, l)
                return self.dkeys(d)
            if ty[0] == "list" or ty == ANY:
                return self.content(s, l)
            if ty[0] in ("obj",):
                F = self.prog.find_method(ty[1], "__iter__")
                if F:
                    return self.to_seq(s, self.call_func(s, F, None, l, [], {}, node), node)
            self.raise_(s, self.exc("TypeError"), node)
            return EMPTY

        return self.dispatch(st, v, f)

    def dkeys(self, d):
        def f(x):
            r = tm.d_keys(x)
            if r is None:
                raise Undecided("iteration over a dict after a deletion")
            if any(s.op == "opq" and s.args[0].args[0].op == "dmap" for s in r.args if r.op == "seq"):
                raise Undecided("iteration over a dict filled by a loop")
            return r

        return lift(f, d)

    def seq_get(self, st, seq, i, node):
        """list indexing on a sequence value; IndexError out of range"""
        i = self.guard(st, i, node)
        n = tm.seq_len(seq)
        neg = gt(ZERO, i)
        pos = restrict(ite(neg, arith("+", n, i), i), st.pc)
        bad = OR(to_bool(gt(ZERO, pos)), to_bool(ge(pos, n)))
        self.raise_if(st, restrict(bad, st.pc), self.exc("IndexError"), node)
        if st.pc is FALSE:
            return UNDEF

        def f(s, p):
            o = ZERO
            r = UNDEF
            conds = []
            for seg in s.args:
                q = padd(p, o, -1)
                ln = tm.seg_len(seg)
                if seg.op == "item":
                    v = seg.args[0]
                elif seg.op == "opq":
                    v = tm.mkidx(seg.args[0], q)
                else:
                    v = self.map_get(seg, q)
                if ln.op == "ite":
                    if len(s.args) > 1:
                        raise Undecided("index in a composite list")
                    return v
                o = padd(o, ln)
                conds.append((gt(o, p), v))
            for c, v in reversed(conds):
                r = v if r is UNDEF else ite(c, v, r)
            return r

        return restrict(lift(f, seq, pos), st.pc)

    def map_get(self, seg, q):
        C, body, bv = seg.args
        if q is ZERO:
            ne = truth_nonempty(body)
            f = tm.mkfirst(C, ne, bv, typeof(bv))
            b = subst(body, {bv: f})
            return lift(lambda x: x.args[0].args[0] if x.args and x.args[0].op == "item" else UNDEF, b)
        if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "item":
            return subst(body.args[0].args[0], {bv: tm.mkidx(C, q)})
        raise Undecided("index in a filtered list")

    def seq_slice(self, st, seq, lo, hi, step, node):
        if step is not None and step is not NONE:
            if step.op == "num" and step.args[0] == -1 and (lo in (None, NONE)) and (hi in (None, NONE)):
                return tm.rev_seq(seq)
            raise Undecided("slice with a step")
        n = tm.seq_len(seq)

        def bound(x, dflt):
            if x is None or x is NONE:
                return dflt
            neg = gt(ZERO, x)
            y = ite(neg, arith("+", n, x), x)
            y = ite(to_bool(gt(ZERO, y)), ZERO, y)
            return ite(to_bool(gt(y, n)), n, y)

        a = self.simp(st, bound(lo, ZERO))
        b = self.simp(st, bound(hi, n))

        def f(s, x, y, nn):
            r = s if x is ZERO else self.drop(st, s, x)
            if y is nn:
                return r
            if r.op != "seq":
                return UNDEF
            k = padd(y, x, -1)
            return self.take(st, r, k)

        return lift(f, seq, a, b, restrict(n, st.pc))

    def simp(self, st, v):
        """prune infeasible leaves of a small gated value"""
        v = restrict(v, st.pc)
        if v.op != "ite":
            return v
        for a in tm.atoms(v):
            c = tm.atomv(a)
            if not theory.feasible(AND(st.pc, c)):
                v = restrict(v, NOT(c))
            elif not theory.feasible(AND(st.pc, NOT(c))):
                v = restrict(v, c)
        return v

    def drop(self, st, s, k):
        if all(x.op == "item" for x in s.args):
            if k.op == "num":
                return mkseq(s.args[int(k.args[0]):])
            if len(s.args) > 8 or typeof(k) != INT:
                raise Undecided("slice of a literal list at a symbolic position")
            return self.simp(st, ite(eq(k, ZERO), s, self.drop_items(s, k)))
        if len(s.args) == 1 and s.args[0].op == "opq":
            return opq(tm.mkdrop(s.args[0].args[0], k))
        if self.one_to_one(s):
            m = s.args[0]
            return tm.mapseq(tm.mkdrop(m.args[0], k), m.args[1], m.args[2])
        first = s.args[0]
        if first.op == "item" and k.op == "num" and k.args[0] >= 1:
            return self.drop(st, mkseq(s.args[1:]), padd(k, ONE, -1)) if k is not ONE else mkseq(s.args[1:])
        if first.op == "opq":
            ln = tm.coll_len(first.args[0])
            if ln.op != "ite":
                c = to_bool(gt(k, ln))
                inside = concat(opq(tm.mkdrop(first.args[0], k)), mkseq(s.args[1:]))
                c = self.simp(st, c)
                if c is FALSE:
                    return inside
                rest = mkseq(s.args[1:])
                over = self.drop(st, rest, padd(k, ln, -1)) if all(x.op == "item" for x in rest.args) and padd(k, ln, -1).op == "num" else None
                if over is None:
                    over = self.drop_items(rest, padd(k, ln, -1))
                if c is TRUE:
                    return over
                return ite(c, over, inside)
        if all(x.op != "map" for x in s.args):
            return mkseq((mk("opq", mk("drop", s, k)),))
        raise Undecided("slice of a composite list")

    def one_to_one(self, s):
        """one item for each element of a collection"""
        if len(s.args) != 1 or s.args[0].op != "map":
            return False
        body = s.args[0].args[1]
        return body.op == "seq" and len(body.args) == 1 and body.args[0].op == "item"

    def drop_items(self, s, k):
        """s literal items, k >= 1 symbolic, k <= len"""
        r = EMPTY
        for j in range(len(s.args), 0, -1):
            v = mkseq(s.args[j:])
            r = v if j == len(s.args) else ite(eq(k, const(j)), v, r)
        return r

    def take(self, st, s, k):
        if all(x.op == "item" for x in s.args) and k.op == "num":
            return mkseq(s.args[:int(k.args[0])])
        if k is ZERO:
            return EMPTY
        if all(x.op == "item" for x in s.args) and len(s.args) <= 8 and typeof(k) == INT:
            r = s
            for j in range(len(s.args)):
                r = ite(eq(k, const(j)), mkseq(s.args[:j]), r)
            return self.simp(st, r)
        if len(s.args) == 1 and s.args[0].op == "opq":
            return opq(tm.mktake(s.args[0].args[0], k))
        if self.one_to_one(s):
            m = s.args[0]
            return tm.mapseq(tm.mktake(m.args[0], k), m.args[1], m.args[2])
        # all but the last items
        n = tm.seq_len(s)
        if n.op != "ite":
            d = padd(n, k, -1)
            if d.op == "num":
                j = int(d.args[0])
                segs = list(s.args)
                while j > 0 and segs and segs[-1].op == "item":
                    segs.pop()
                    j -= 1
                if j == 0:
                    return mkseq(tuple(segs))
                if len(segs) == 1 and segs[0].op == "opq":
                    C = segs[0].args[0]
                    return opq(tm.mktake(C, padd(tm.coll_len(C), const(j), -1)))
        raise Undecided("slice of a composite list")

    def seq_in(self, st, x, seq, node):
        def f(xl, s):
            if s.op != "seq":
                return FALSE
            r = FALSE
            for seg in s.args:
                if seg.op == "item":
                    r = OR(r, to_bool(eq(xl, seg.args[0])))
                elif seg.op == "opq":
                    C = seg.args[0]
                    ty = typeof(C)
                    bv = mk("bv", tm.maxbv(xl) + 1, ty[1] if len(ty) > 1 else ANY)
                    r = OR(r, tm.mkany(C, to_bool(eq(xl, bv)), bv))
                else:
                    C, body, bv = seg.args
                    h = max(tm.maxbv(xl) + 1, bv.args[0])
                    b2 = mk("bv", h, bv.args[1])
                    body = subst(body, {bv: b2})
                    g = lift(lambda q: _or_items(q, xl), body)
                    r = OR(r, tm.mkany(C, to_bool(g), b2))
            return r

        return lift(f, x, seq)

    # ------------------------------------------------------------------ statements
    def block(self, st, stmts, out):
        for s in stmts:
            if st.pc is FALSE:
                return
            self.tick(s)
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                raise Undecided("statement %s at %s" % (type(s).__name__, self.loc(s)))
            m(st, s, out)

    def x_Expr(self, st, n, out):
        if isinstance(n.value, ast.Constant):
            return
        use = self.users.get(self.stack[-1][1]) if isinstance(n.value, (ast.Yield, ast.YieldFrom)) else None
        if use is not None:
            v = self.ev(st, n.value.value) if n.value.value is not None else NONE
            if st.pc is FALSE:
                return
            if isinstance(n.value, ast.Yield):
                use(st, v, out)
            else:
                self.iterate(st, v, lambda s, x, o: use(s, x, o), out, None, n)
            return
        self.ev(st, n.value)

    def x_Pass(self, st, n, out):
        pass

    def x_Import(self, st, n, out):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else nm
            v = mk("ext", "module:" + tgt) if tgt in self.prog.modules else mk("ext", tgt)
            st.store[self.var_key(nm, True)] = v

    def x_ImportFrom(self, st, n, out):
        m = self.stack[-1][0].module
        base = n.module or ""
        for a in n.names:
            if base in self.prog.modules:
                v = self.load_global(st, self.prog.modules[base], a.name, n)
            else:
                v = mk("ext", base + "." + a.name)
            st.store[self.var_key(a.asname or a.name, True)] = v

    def x_Assign(self, st, n, out):
        v = self.ev(st, n.value)
        for t in n.targets:
            self.assign(st, t, v)

    def x_AnnAssign(self, st, n, out):
        if n.value is not None:
            v = self.ev(st, n.value)
            self.assign(st, n.target, v)

    def x_AugAssign(self, st, n, out):
        opn = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.load_name(st, n.target.id, n)
            rhs = self.ev(st, n.value)
            if opn == "Add" and self.is_list(cur):
                self.list_extend(st, cur, rhs, n)
                return
            st.store[self.store_key(st, n.target.id)] = self.binop(st, opn, cur, rhs, n)
        elif isinstance(n.target, ast.Attribute):
            b = self.ev(st, n.target.value)
            cur = self.load_attr(st, b, n.target.attr, n)
            rhs = self.ev(st, n.value)
            if opn == "Add" and self.is_list(cur):
                self.list_extend(st, cur, rhs, n)
                return
            self.store_attr(st, b, n.target.attr, self.binop(st, opn, cur, rhs, n), n)
        elif isinstance(n.target, ast.Subscript):
            b = self.ev(st, n.target.value)
            k = self.ev(st, n.target.slice)
            cur = self.getitem(st, b, k, n)
            rhs = self.ev(st, n.value)
            self.setitem(st, b, k, self.binop(st, opn, cur, rhs, n), n)
        else:
            raise Undecided("augmented assignment")

    def is_list(self, v):
        return all(unopt(typeof(l))[0] == "list" and l.op != "seq" for l in tm.leaves(v))

    def list_extend(self, st, ref, rhs, node):
        seq = self.to_seq(st, rhs, node)

        def f(s, r):
            self.set_content(s, r, concat(self.content(s, r), seq))
            return NONE

        self.dispatch(st, ref, f)

    def x_Delete(self, st, n, out):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.store[self.var_key(t.id, True)] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.ev(st, t.value)
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(st, t.slice.lower) if t.slice.lower else None
                    hi = self.ev(st, t.slice.upper) if t.slice.upper else None
                    if lo is None or lo is ZERO:
                        def f(s, r):
                            c = self.content(s, r)
                            self.set_content(s, r, self.seq_slice(s, c, hi if hi is not None else tm.seq_len(c), None, None, n))
                            return NONE
                        self.dispatch(st, b, f)
                    elif hi is None:
                        def g(s, r):
                            c = self.content(s, r)
                            self.set_content(s, r, self.seq_slice(s, c, None, lo, None, n))
                            return NONE
                        self.dispatch(st, b, g)
                    else:
                        raise Undecided("del of a slice")
                    continue
                k = self.ev(st, t.slice)
                self.delitem(st, b, k, n)
            elif isinstance(t, ast.Attribute):
                b = self.ev(st, t.value)
                self.store_attr(st, b, t.attr, UNDEF, n)

    def delitem(self, st, b, k, node):
        def f(s, l):
            ty = unopt(typeof(l))
            if ty[0] == "dict":
                d = self.content(s, l)
                self.raise_if(s, NOT(to_bool(d_haskey(d, k))), self.exc("KeyError"), node)
                self.set_content(s, l, lift(lambda x: mkdict(x.args[0], x.args[1] + ((k, UNDEF),)), self.content(s, l)))
            else:
                self.list_pop(s, l, k, node)
            return NONE

        self.dispatch(st, b, f)

    def list_pop(self, st, ref, k, node):
        c = self.content(st, ref)
        v = self.seq_get(st, c, k, node)
        if st.pc is FALSE:
            return UNDEF
        c = restrict(c, st.pc)
        if k.op == "num" and k.args[0] == 0:
            self.set_content(st, ref, self.seq_slice(st, c, ONE, None, None, node))
        elif k.op == "num" and k.args[0] == -1:
            self.set_content(st, ref, self.seq_slice(st, c, None, const(-1), None, node))
        else:
            a = self.seq_slice(st, c, None, k, None, node)
            b = self.seq_slice(st, c, arith("+", k, ONE), None, None, node)
            self.set_content(st, ref, concat(a, b))
        return v

    def store_key(self, st, name):
        F, fid, parent, nl = self.stack[-1]
        if name in self.global_names.get(fid, ()):
            return self.module_cell(F.module, name)
        if name in nl:
            f = self.frames[fid][0]
            while f is not None:
                if ("v", f, name) in st.store:
                    return ("v", f, name)
                f = self.frames[f][0]
        return ("v", fid, name)

    def x_Nonlocal(self, st, n, out):
        F, fid, parent, nl = self.stack[-1]
        self.stack[-1] = (F, fid, parent, tuple(nl) + tuple(n.names))

    def x_Global(self, st, n, out):
        F, fid, parent, nl = self.stack[-1]
        for x in n.names:
            self.global_set(st, F.module, x)
            self.global_names.setdefault(fid, set()).add(x)

    def assign(self, st, t, v):
        if st.pc is FALSE:
            return
        if isinstance(t, ast.Name):
            st.store[self.store_key(st, t.id)] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(st, t.value)
            self.store_attr(st, b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(st, t.value)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None:
                    seq = self.to_seq(st, v, t)

                    def f(s, r):
                        self.set_content(s, r, seq)
                        return NONE

                    self.dispatch(st, b, f)
                    return
                raise Undecided("slice assignment")
            k = self.ev(st, t.slice)
            self.setitem(st, b, k, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.to_seq(st, v, t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                seq = restrict(seq, st.pc)
                if seq.op != "seq" or any(x.op != "item" for x in seq.args) or len(star) > 1 or len(seq.args) < len(t.elts) - 1:
                    raise Undecided("starred assignment")
                xs, i, m = [x.args[0] for x in seq.args], star[0], len(seq.args) - len(t.elts) + 1
                for e, x in zip(t.elts[:i] + t.elts[i + 1:], xs[:i] + xs[i + m:]):
                    self.assign(st, e, x)
                self.assign(st, t.elts[i].value, self.new_list(st, mkseq(tuple(item(x) for x in xs[i:i + m]))))
                return
            for i, e in enumerate(t.elts):
                x = lift(lambda s, i=i: s.args[i].args[0] if s.op == "seq" and len(s.args) == len(t.elts) and s.args[i].op == "item" else UNDEF, seq)
                if any(l is UNDEF for l in tm.leaves(x)):
                    raise Undecided("unpacking of an unknown sequence")
                self.assign(st, e, x)
        else:
            raise Undecided("assignment target")

    def setitem(self, st, b, k, v, node):
        def f(s, l):
            ty = unopt(typeof(l))
            if ty[0] == "dict":
                d = self.content(s, l)
                self.set_content(s, l, lift(lambda x, kk: mkdict(x.args[0], x.args[1] + ((kk, v),)), d, k))
            elif ty[0] == "list":
                c = self.content(s, l)

                def g(q, kk):
                    if kk.op == "num" and all(x.op == "item" for x in q.args):
                        i = int(kk.args[0])
                        if -len(q.args) <= i < len(q.args):
                            xs = list(q.args)
                            xs[i] = item(v)
                            return mkseq(tuple(xs))
                    if kk.op == "num" and kk.args[0] == -1 and q.args and q.args[-1].op == "item":
                        return mkseq(q.args[:-1] + (item(v),))
                    raise Undecided("assignment to an element of a list")

                self.set_content(s, l, lift(g, c, k))
            elif ty[0] == "obj":
                F = self.prog.find_method(ty[1], "__setitem__")
                if F is None:
                    raise Undecided("item assignment on %s" % ty[1])
                self.call_func(s, F, None, l, [k, v], {}, node)
            else:
                raise Undecided("item assignment")
            return NONE

        self.dispatch(st, b, f)

    def branch(self, st, c):
        """feasibility of both sides"""
        if c is TRUE or c is FALSE:
            return c
        if not theory.feasible(AND(st.pc, c)):
            st.pc = AND(st.pc, NOT(c))
            return FALSE
        if not theory.feasible(AND(st.pc, NOT(c))):
            st.pc = AND(st.pc, c)
            return TRUE
        return c

    def x_If(self, st, n, out):
        c = self.branch(st, self.cond(st, n.test))
        if st.pc is FALSE:
            return
        if c is TRUE:
            return self.block(st, n.body, out)
        if c is FALSE:
            return self.block(st, n.orelse, out)
        s1, s2 = st.copy(AND(st.pc, c)), st.copy(AND(st.pc, NOT(c)))
        self.block(s1, n.body, out)
        self.block(s2, n.orelse, out)
        st.become(self.join([s1, s2]))

    def x_Return(self, st, n, out):
        v = self.ev(st, n.value) if n.value is not None else NONE
        if st.pc is not FALSE:
            out.ret.append((st.copy(), v))
        st.pc = FALSE

    def x_Break(self, st, n, out):
        out.brk.append(st.copy())
        st.pc = FALSE

    def x_Continue(self, st, n, out):
        out.cont.append(st.copy())
        st.pc = FALSE

    def x_Raise(self, st, n, out):
        if n.exc is None:
            v = st.store.get(("exc",), self.exc("Exception"))
        else:
            v = self.ev(st, n.exc)

        def f(s, l):
            if l.op == "class":
                l = self.exc(l.args[0])
            elif l.op == "ext" and l.args[0].startswith("exc."):
                l = self.exc(l.args[0][4:])
            elif l.op != "exc":
                l = self.exc("TypeError")
            self.raise_(s, l, n)
            return NONE

        self.dispatch(st, v, f)
        st.pc = FALSE

    def x_Assert(self, st, n, out):
        c = self.cond(st, n.test)
        self.raise_if(st, NOT(c), self.exc("AssertionError"), n)

    def x_FunctionDef(self, st, n, out):
        F = Func(n.name, n, self.stack[-1][0].module)
        F.qual = self.stack[-1][0].qual + ".<locals>." + n.name
        fid = self.stack[-1][1]
        self.captured.add(fid)
        st.store[self.var_key(n.name, True)] = self.closure(st, F, fid)

    def x_Try(self, st, n, out):
        self.sinks.append([])
        inner = Out()
        try:
            self.block(st, n.body, inner)
        finally:
            caught = self.sinks.pop()
        normal = st.copy()
        self.sinks.append([])
        after = Out()
        try:
            if normal.pc is not FALSE:
                self.block(normal, n.orelse, inner)
            falls = [normal]
            for s, e, loc in caught:
                if s.pc is FALSE:
                    continue
                name = e.args[0]
                done = False
                for h in n.handlers:
                    if self.handles(s, h, name):
                        hs = s.copy()
                        if h.name:
                            hs.store[self.var_key(h.name, True)] = e
                        hs.store[("exc",)] = e
                        self.block(hs, h.body, inner)
                        falls.append(hs)
                        done = True
                        break
                if not done:
                    self.sinks[-1].append((s, e, loc))
        finally:
            pend = self.sinks.pop()
        if n.finalbody:
            def fin(s):
                o = Out()
                self.block(s, n.finalbody, o)
                for q, v in o.ret:
                    out.ret.append((q, v))
                out.brk += o.brk
                out.cont += o.cont
                return s
            st.become(fin(self.join(falls)))
            for s, v in inner.ret:
                fin(s)
                if s.pc is not FALSE:
                    out.ret.append((s, v))
            for s in inner.brk:
                fin(s)
                out.brk.append(s)
            for s in inner.cont:
                fin(s)
                out.cont.append(s)
            for s, e, loc in pend:
                fin(s)
                if s.pc is not FALSE:
                    self.sinks[-1].append((s, e, loc))
        else:
            st.become(self.join(falls))
            out.ret += inner.ret
            out.brk += inner.brk
            out.cont += inner.cont
            self.sinks[-1] += pend

    def handles(self, st, h, name):
        if h.type is None:
            return True
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for e in elts:
            v = self.ev(st, e)
            nm = v.args[0] if v.op == "class" else v.args[0].split(".")[-1] if v.op == "ext" else None
            if nm is None:
                raise Undecided("except clause")
            if self.prog.is_sub(name, nm):
                return True
        return False

    def x_With(self, st, n, out):
        ctxs = []
        if len(n.items) > 1:
            inner = ast.copy_location(ast.With(n.items[1:], n.body), n)
            return self.x_With(st, ast.copy_location(ast.With(n.items[:1], [inner]), n), out)
        for it in n.items:
            v = self.ev(st, it.context_expr)
            ls = [unopt(typeof(l)) for l in tm.leaves(restrict(v, st.pc))]
            if all(ty[0] == "obj" and ty[1] in self.prog.classes and self.prog.find_method(ty[1], "__enter__") for ty in ls):
                return self.own_with(st, n, it.optional_vars, v, out)
            ctxs.append(v)
            for l in tm.leaves(restrict(v, st.pc)):
                ty = unopt(typeof(l))
                if l.op == "gen" or (l.op == "new" and l.args[0] == "gen") or (
                        ty[0] == "obj" and ty[1] in self.prog.classes and self.prog.find_method(ty[1], "__enter__")):
                    raise Undecided("with %s at %s" % (tm.show(l), self.loc(n)))
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        inner = Out()
        self.sinks.append([])
        try:
            self.block(st, n.body, inner)
        finally:
            pend = self.sinks.pop()

        def close(s):
            if s.pc is FALSE:
                return
            for v in reversed(ctxs):
                def f(q, l):
                    if l.op == "new" and l.args[0] == "File":
                        self.event(q, "file.close", [l])
                    return NONE
                self.dispatch(s, v, f)

        close(st)
        for s, v in inner.ret:
            close(s)
        for s in inner.brk + inner.cont:
            close(s)
        for s, e, loc in pend:
            close(s)
        out.ret += inner.ret
        out.brk += inner.brk
        out.cont += inner.cont
        self.sinks[-1] += pend

    def own_with(self, st, n, target, v, out):
        """`with` on an object of a class of the program"""
        self.withs = getattr(self, "withs", 0) + 1
        m = "with@%d" % self.withs
        code = ast.parse(
            "M = 0\nX = M.__enter__()\nB = True\ntry:\n try:\n  pass\n except BaseException as E:\n  B = False\n"
            "  if not M.__exit__(type(E), E, None):\n   raise\nfinally:\n if B:\n  M.__exit__(None, None, None)").body
        for q in code:
            for x in ast.walk(q):
                if isinstance(x, ast.Name) and x.id in "MXBE":
                    x.id = m + x.id
                if isinstance(x, ast.ExceptHandler):
                    x.name = m + "E"
                if hasattr(x, "lineno"):
                    ast.copy_location(x, n)
        body = list(n.body)
        if target is not None:
            set_ = ast.Assign([target], ast.Name(m + "X", ast.Load()))
            body.insert(0, ast.fix_missing_locations(ast.copy_location(set_, n)))
        code[3].body[0].body = body
        self.assign(st, ast.copy_location(ast.Name(m + "M", ast.Store()), n), v)
        self.block(st, code[1:], out)

    # ------------------------------------------------------------------ loops
    def x_For(self, st, n, out):
        it = self.ev(st, n.iter)

        def emit(s, v, o):
            self.assign(s, n.target, v)
            self.block(s, n.body, o)

        self.iterate(st, it, emit, out, lambda s: self.block(s, n.orelse, out), n)

    def for_loop(self, st, seq, bind, body, out, orelse=None, live=None):
        if st.pc is FALSE:
            return
        ends = []
        for l, c in self.split(st, seq):
            s = st.copy(AND(st.pc, c))
            if s.pc is FALSE or (c is not TRUE and not theory.feasible(s.pc)):
                continue
            if l.op != "seq":
                if l is UNDEF:
                    continue
                raise Undecided("iteration over %r" % (l,))
            if live is None:
                brk = self.for_seq(s, l, bind, body, out)
            elif typeof(live)[0] == "list" and all(x.op == "item" for x in l.args):
                brk = self.live_items(s, l, live, bind, body, out, 0)
            else:
                brk = self.for_seq(s, l, bind, self.watched(s, live, body), out)
            if orelse is not None and s.pc is not FALSE:
                orelse(s)
            ends += [s] + brk
        st.become(self.join(ends))

    def live_items(self, st, seq, ref, bind, body, out, i):
        """the elements of a list that may change while it is gone through"""
        brk = []
        while st.pc is not FALSE and i < len(seq.args):
            lo = Out(out.ret)
            bind(st, seq.args[i].args[0])
            body(st, lo)
            st.become(self.join([st] + lo.cont))
            brk += lo.brk
            i += 1
            if st.pc is FALSE:
                break
            now = self.content(st, ref)
            if now is seq:
                continue
            ends = []
            parts = self.split(st, now)
            for l, c in parts:
                if l.op != "seq" or any(x.op != "item" for x in l.args):
                    raise Undecided("a list that changes while it is gone through")
                s = st.copy(AND(st.pc, c))
                if s.pc is FALSE or (len(parts) > 1 and not theory.feasible(s.pc)):
                    continue
                brk += self.live_items(s, l, ref, bind, body, out, i)
                ends.append(s)
            st.become(self.join(ends))
            break
        return brk

    def watched(self, st, ref, body):
        key = ("c", ref)
        what = lambda s: restrict(s.store[key] if s.store.get(key) is not None else self.default(key), s.pc)
        if typeof(ref)[0] == "dict":
            size = lambda v: lift(lambda d: d if d.op != "dict" else tm.d_len(d), v)
        else:
            size = lambda v: v

        def f(s, o):
            before = size(what(s))
            body(s, o)
            for q in [s] + o.cont:
                if q.pc is not FALSE:
                    after = size(what(q))
                    if after is not restrict(before, q.pc) and after is not before:
                        raise Undecided("a collection that changes while it is gone through")

        return f

    def for_seq(self, st, seq, bind, body, out):
        brk = []
        for seg in seq.args:
            if st.pc is FALSE:
                break
            if seg.op == "item":
                lo = Out(out.ret)
                bind(st, seg.args[0])
                body(st, lo)
                st.become(self.join([st] + lo.cont))
                brk += lo.brk
            elif self.bound is not None:
                self.bounded_seg(st, seg, bind, body, out, brk)
            else:
                self.summarise(st, seg, bind, body, out, brk)
        return brk

    def bounded_seg(self, st, seg, bind, body, out, brk):
        """bounded mode: a collection of unknown size is taken with at most n elements"""
        self.used_bound = True
        C = seg.args[0]
        ty = typeof(C)
        n = self.bound[0]
        ln = tm.coll_len(C)
        st.pc = AND(st.pc, to_bool(ge(const(n), ln)))
        done = []
        for i in range(n):
            has = to_bool(gt(ln, const(i)))
            c = AND(st.pc, NOT(has))
            if c is not FALSE and theory.feasible(c):
                done.append(st.copy(c))
            st.pc = AND(st.pc, has)
            if st.pc is FALSE or not theory.feasible(st.pc):
                st.pc = FALSE
                break
            x = tm.mkidx(C, const(i))
            if seg.op == "opq":
                lo = Out(out.ret)
                bind(st, x)
                body(st, lo)
                st.become(self.join([st] + lo.cont))
                brk += lo.brk
            elif seg.op != "map":
                raise Undecided("iteration over the outcome of a loop with carried state")
            else:
                inner = subst(seg.args[1], {seg.args[2]: x})
                lo = Out(out.ret)
                ends = []
                for l, c in self.split(st, inner):
                    s = st.copy(AND(st.pc, c))
                    if s.pc is FALSE:
                        continue
                    brk += self.for_seq(s, l, bind, body, lo)
                    ends.append(s)
                st.become(self.join(ends))
        st.become(self.join([st] + done))

    def _inner_body(self, seg, e, bind, body):
        """run one iteration of a summarised segment on state s; returns Out"""
        if seg.op == "opq":
            def run(s, ret):
                lo = Out(ret)
                bind(s, e)
                body(s, lo)
                s.become(self.join([s] + lo.cont))
                return lo.brk
            return run
        if seg.op != "map":
            raise Undecided("iteration over the outcome of a loop with carried state")
        inner = subst(seg.args[1], {seg.args[2]: e})

        def run(s, ret):
            lo = Out(ret)
            brk, ends = [], []
            for l, c in self.split(s, inner):
                q = s.copy(AND(s.pc, c))
                if q.pc is FALSE:
                    continue
                brk += self.for_seq(q, l, bind, body, lo)
                ends.append(q)
            s.become(self.join(ends))
            return brk
        return run

    def summarise(self, st, seg, bind, body, out, brk):
        self.loops += 1
        C = seg.args[0]
        ty = typeof(C)
        ety = ty[1] if len(ty) > 1 else ANY
        if C.op == "seq" and any(x.op == "map" for x in C.args):
            raise Undecided("loop over a slice of a filtered list")
        e = mk("elem", C, self.depth, ety)
        run = self._inner_body(seg, e, bind, body)
        self.generic_loop(st, C, e, run, out, brk)

    def while_summary(self, st, n, out):
        self.loops += 1
        C = mk("nat")

        def run(s, ret):
            lo = Out(ret)
            c = self.branch(s, self.cond(s, n.test))
            brks = []
            if c is not TRUE:
                x = s.copy(AND(s.pc, NOT(c)))
                if n.orelse:
                    self.block(x, n.orelse, lo)
                brks.append(x)
                s.pc = AND(s.pc, c)
            self.block(s, n.body, lo)
            s.become(self.join([s] + lo.cont))
            return brks + lo.brk

        brk = []
        e = mk("elem", C, self.depth, INT)
        self.generic_loop(st, C, e, run, out, brk)
        return brk

    def carry_sym(self, st, key, init, others, rank):
        if key[0] == "c":
            ty = unopt(typeof(key[1]))
            if ty[0] == "dict" or (init.op == "dict"):
                return mk("carry", self.depth, self._kname(key, init, rank), ty if ty[0] == "dict" else ("dict", ANY, ANY))
            et = ty[1] if len(ty) > 1 else ANY
            return mk("carry", self.depth, self._kname(key, init, rank), ("seq", et))
        tys, none = set(), False
        for v in [init] + others:
            for l in tm.leaves(v):
                if l is NONE:
                    none = True
                elif l.op in ("undef", "err"):
                    pass
                else:
                    t = typeof(l)
                    if t[0] == "opt":
                        none, t = True, t[1]
                    tys.add(t)
        if tys <= {INT}:
            ty = INT if tys else ANY
        elif tys <= {INT, FLOAT, NUM}:
            ty = NUM
        elif len(tys) == 1:
            ty = tys.pop()
        else:
            ty = ANY
        if none:
            ty = tm.opt(ty)
        return mk("carry", self.depth, self._kname(key, init, rank), ty)

    def _kname(self, key, init, rank):
        if key[0] in ("f", "c"):
            return key
        return ("var", init, rank)

    def generic_loop(self, st, C, e, run, out, brk):
        base_pc = st.pc
        appkeys = [k for k in st.store if k[0] in ("#log", "y")]
        carries = {}
        order = []
        self.depth += 1
        c0 = dict(self.counters)
        fid0 = self.fid_n
        try:
            for _ in range(10):
                self.counters = dict(c0)
                s0 = st.copy()
                for k, c in carries.items():
                    s0.store[k] = self._wrap(k, c)
                for k in appkeys:
                    s0.store[k] = EMPTY
                s0.store[LOG] = EMPTY
                self.sinks.append([])
                rets = []
                s = s0.copy()
                try:
                    brks = run(s, rets)
                finally:
                    raised = self.sinks.pop()
                exits = [("brk", x, None) for x in brks] + [("ret", x, v) for x, v in rets] + \
                        [("raise", x, (v, l)) for x, v, l in raised]
                exits = [x for x in exits if x[1].pc is not FALSE and theory.feasible(x[1].pc)]
                if s.pc is not FALSE and not theory.feasible(s.pc):
                    s.pc = FALSE
                changed = {}
                for x in ([s] if s.pc is not FALSE else []):
                    for k, v in x.store.items():
                        if k in carries or k in appkeys or k == LOG or k[0] in ("exc", "tmp"):
                            continue
                        if k[0] == "v" and k[1] > fid0:
                            continue
                        if k[0] in ("f", "c", "p") and (contains(k[1], e) or self._local(k[1], c0)):
                            continue
                        if k[0] == "y" and k[1] > fid0:
                            continue
                        o = s0.store.get(k)
                        if o is None:
                            o = self.default(k)
                            if k[0] == "v":
                                o = UNDEF
                        if o is not v:
                            changed[k] = (o, v)
                if not changed:
                    break
                for k, (o, v) in changed.items():
                    order.append(k)
                    if k[0] == "v":
                        rank = sum(1 for q in carries if q[0] == "v" and self._init(st, q) is self._init(st, k))
                    else:
                        rank = 0
                    carries[k] = self.carry_sym(st, k, o, [v], rank)
            else:
                raise Undecided("loop state does not stabilise")
        finally:
            self.depth -= 1
        self.close_loop(st, C, e, s0, s, exits, carries, appkeys, base_pc, out, brk, c0)

    def _local(self, ref, c0):
        """object allocated inside the current iteration"""
        return ref.op == "new" and ref.args[1] > c0.get(ref.args[0], 0)

    def _init(self, st, k):
        v = st.store.get(k)
        return self.default(k) if v is None else v

    def _wrap(self, k, c):
        if k[0] == "c":
            return mkdict(c) if c.args[2][0] == "dict" else opq(c)
        return c

    def close_loop(self, st, C, e, s0, s, exits, carries, appkeys, base_pc, out, brk, c0):
        csyms = list(carries.values())
        nat = C.op == "nat"
        stop = FALSE
        for k, x, v in exits:
            stop = OR(stop, restrict(x.pc, base_pc))
        stop = restrict(stop, base_pc)
        alw = s.pc is FALSE
        if alw:
            stop = TRUE
        # per element writes become events of the iteration
        def with_writes(x):
            ev = []
            for k, v in x.store.items():
                if k[0] == "f" and contains(k[1], e) and not self._local(k[1], c0):
                    if not k[2].startswith("_") or True:
                        ev.append((k[1].id, k[2], item(mk("ev", "write", k[1], const(k[2]), v))))
                elif k[0] == "c" and contains(k[1], e) and not self._local(k[1], c0):
                    ev.append((k[1].id, "", item(mk("ev", "write", k[1], const("*"), v))))
            if not ev:
                return x.store.get(LOG, EMPTY)
            ev.sort(key=lambda q: (q[0], q[1]))
            return concat(x.store.get(LOG, EMPTY), mkseq(tuple(q[2] for q in ev)))

        cont = {k: restrict(s.store.get(k) if s.store.get(k) is not None else self.default(k), s.pc) for k in carries} if not alw else {}
        # dict carries only read at the key of the iteration: read from the initial dict
        alias = {}
        if not alw:
            for k, c in carries.items():
                if k[0] == "c" and c.args[2][0] == "dict":
                    a = self._dict_alias(k, c, e, C, cont, exits, st)
                    if a is not None:
                        alias[c] = a
        if alias:
            f = lambda v: subst(v, alias)
            cont = {k: (f(v) if k[0] != "c" or carries[k] not in alias else self._alias_dict(v, carries[k], alias)) for k, v in cont.items()}
            stop = to_bool(f(stop))
            s = St(to_bool(f(s.pc)), {k: (f(v) if k not in carries else v) for k, v in s.store.items()})
        # appended sequences of the iteration
        apps = {}
        if not alw:
            for k in appkeys + ([LOG] if LOG not in appkeys else []):
                v = with_writes(s) if k == LOG else s.store.get(k, EMPTY)
                apps[k] = self._freeze_seq(s, restrict(v, s.pc), c0, e)
        dep_stop = [c for c in csyms if contains(stop, c)] if stop.op == "ite" else []
        finals_all = {}

        def closed(*vals):
            h = tm.maxbv(*vals) + 1
            bv = mk("bv", h, e.args[2])
            return bv, [subst(v, {e: bv}) for v in vals]

        def summarise_all(CC, simple):
            """values after the whole of CC has been iterated; {key: value}"""
            res = {}
            for k in carries:
                res[k] = self.carry_final(st, k, carries, cont, CC, e, closed, c0, s)
            for k, rest in apps.items():
                deps = [c for c in csyms if contains(rest, c)]
                if deps:
                    fo = self.fold_terms(st, carries, cont, deps, CC, FALSE, e)
                    cvm = fo[1]
                    h, bv = fo[2], fo[3]
                    body = subst(rest, dict(cvm, **{}) if not nat else cvm)
                    body = subst(body, {e: bv})
                    seg = mkseq((mk("scan", CC, fo[0], FALSE, body, bv),))
                else:
                    bv, (b,) = closed(rest)
                    seg = tm.mapseq(CC, b, bv)
                res[k] = concat(self._init(st, k), seg)
            return res

        ends = []
        if not exits and not nat:
            res = summarise_all(C, True)
            for k, v in res.items():
                st.store[k] = v
            return
        if not nat and not dep_stop:
            bv, (g,) = closed(stop)
            g = to_bool(g)
            anyc = tm.mkany(C, g, bv)
            # normal completion
            n = st.copy(AND(base_pc, NOT(anyc)))
            if not alw and n.pc is not FALSE:
                for k, v in summarise_all(C, True).items():
                    n.store[k] = v
            P = tm.mktakewhile(C, NOT(g), bv)
            fe = tm.mkfirst(C, g, bv, e.args[2])
            pre = {}
            if not alw:
                pre = summarise_all(P, True)
            sub = {e: fe}
            for k, c in carries.items():
                v = pre.get(k)
                if v is None:
                    v = self._init(st, k)
                sub[c] = v
            self._exit_states(st, exits, sub, AND(base_pc, anyc), carries, appkeys, pre, out, brk, with_writes, alias)
            st.become(n)
            return
        # stop depends on what the loop carries
        deps = [c for c in csyms if contains(stop, c)] or csyms
        inits, cvm, h, bv, keys = self.fold_terms(st, carries, cont, deps, C, stop, e, full=True)
        stopc = subst(subst(stop, cvm), {e: bv})
        sub = {}
        head = (C, inits, stopc, bv)
        for i, k in enumerate(keys):
            c = carries[k]
            sub[c] = mk("fold", c.args[2], C, inits, stopc, bv, i)
        for k, c in carries.items():
            if c in sub:
                continue
            one = self.fold_terms(st, carries, cont, deps + [c], C, stop, e, full=True)
            stop1 = subst(subst(stop, one[1]), {e: one[3]})
            sub[c] = mk("fold", c.args[2], C, one[0], stop1, one[3], one[4].index(k))
        fe = mk("foldelem", e.args[2], C, inits, stopc, bv)
        finals = {k: (opq(sub[c]) if k[0] == "c" and c.args[2][0] != "dict" else mkdict(sub[c]) if k[0] == "c" else sub[c])
                  for k, c in carries.items()}
        pre = dict(finals)
        for k, rest in apps.items():
            if rest is EMPTY:
                pre[k] = self._init(st, k)
            else:
                body = subst(rest, cvm)
                body = subst(body, {e: bv})
                pre[k] = concat(self._init(st, k), mkseq((mk("scan", C, inits, stopc, body, bv),)))
        if nat:
            fstop = TRUE
        else:
            fstop = tm.atomv(mk("app", "foldstop", C, mk("tuple", *[x for p in inits for x in p]), stopc, bv))
        n = st.copy(AND(base_pc, NOT(fstop)))
        for k, v in pre.items():
            n.store[k] = v
        sub[e] = fe
        self._exit_states(st, exits, sub, AND(base_pc, fstop), carries, appkeys, pre, out, brk, with_writes, alias)
        st.become(n)

    def _exit_states(self, st, exits, sub, pc, carries, appkeys, pre, out, brk, with_writes, alias):
        memo = {}
        for kind, x, v in exits:
            f = lambda t: subst(subst(t, alias), sub, memo) if alias else subst(t, sub, memo)
            q = St(AND(pc, to_bool(f(x.pc))), {})
            if q.pc is FALSE or not theory.feasible(q.pc):
                continue
            log = with_writes(x)
            for k, val in x.store.items():
                if k in appkeys or k == LOG:
                    continue
                nk = k
                if k[0] in ("f", "c", "p"):
                    nb = f(k[1])
                    if nb is not k[1]:
                        nk = (k[0], nb) + k[2:]
                if k[0] == "c":
                    nv = f(val)
                    nv = lift(lambda z: z if z.op in ("seq", "dict") else opq(z), nv)
                else:
                    nv = f(val)
                q.store[nk] = nv
            for k in set(appkeys) | {LOG}:
                own = log if k == LOG else x.store.get(k, EMPTY)
                p = pre.get(k)
                if p is None:
                    p = self._init(st, k)
                q.store[k] = concat(p, f(own))
            if kind == "brk":
                brk.append(q)
            elif kind == "ret":
                out.ret.append((q, f(v)))
            else:
                self.sinks[-1].append((q, v[0], v[1]))

    def _dict_alias(self, k, c, e, C, cont, exits, st):
        """dict carried by the loop but only read and written at the key of the iteration"""
        init = self._init(st, k)
        if init.op != "dict":
            return None
        terms_ = list(cont.values()) + [x.pc for _, x, _ in exits]
        for t in tm.subterms(*terms_):
            if t is c:
                continue
            for q in tm.kids(t):
                if q is c:
                    if t.op == "dict":
                        continue
                    if (t.op == "app" and t.args[0] == "haskey" and t.args[2] is e) or (t.op == "val" and t.args[1] is e):
                        continue
                    return None
        return init

    def _alias_dict(self, v, c, alias):
        def f(l):
            if l.op == "dict" and l.args[0] is c:
                return mkdict(c, tuple((a if not contains(a, c) else subst(a, alias), subst(b, alias)) for a, b in l.args[1]))
            return subst(l, alias)
        # conditions of the gated value
        def go(x):
            if x.op == "ite":
                cnd = subst(tm.atomv(x.args[0]), alias)
                return tm.ite_v(to_bool(cnd), go(x.args[1]), go(x.args[2]))
            return f(x)
        return go(v)

    def carry_final(self, st, k, carries, cont, C, e, closed, c0, s):
        c = carries[k]
        v = cont[k]
        init = self._init(st, k)
        csyms = list(carries.values())
        others = [x for x in csyms if x is not c]
        dep_other = any(contains(v, x) for x in others)
        nonempty = to_bool(gt(tm.coll_len(C), ZERO)) if C.op != "nat" else TRUE
        if k[0] == "c" and c.args[2][0] != "dict":
            # list content: append / prepend
            def rest(l, head):
                if l.op != "seq" or not l.args:
                    return None
                if head and l.args[0].op == "opq" and l.args[0].args[0] is c:
                    return mkseq(l.args[1:])
                if not head and l.args[-1].op == "opq" and l.args[-1].args[0] is c:
                    return mkseq(l.args[:-1])
                return None
            for head in (True, False):
                if all(rest(l, head) is not None for l in tm.leaves(v)):
                    r = lift(lambda l: rest(l, head), v)
                    r = self._freeze_seq(s, r, c0, e)
                    if not any(contains(r, x) for x in csyms):
                        bv, (b,) = closed(r)
                        if head:
                            return concat(init, tm.mapseq(C, b, bv))
                        return concat(tm.mapseq(tm.mkrev(C), b, bv), init)
            if all(not contains(l, c) for l in tm.leaves(v)) and not contains(v, c):
                pass
            raise_fold = True
        elif k[0] == "c":
            def upd(l):
                if l.op == "dict" and l.args[0] is c:
                    return l.args[1]
                return None
            if all(upd(l) is not None and len(upd(l)) <= 1 for l in tm.leaves(v)):
                cond = lift(lambda l: TRUE if upd(l) else FALSE, v)
                ks = {u[0] for l in tm.leaves(v) for u in upd(l)}
                vals = lift(lambda l: upd(l)[0][1] if upd(l) else UNDEF, v)
                vals = restrict(vals, cond)
                if len(ks) == 1:
                    key = ks.pop()
                    if not any(contains(x, y) for x in (cond, key, vals) for y in csyms):
                        vals = self._freeze_val(s, vals, c0, e)
                        bv, (cc, kk, vv) = closed(cond, key, vals)
                        return mkdict(mk("dmap", init, C, bv, cc, kk, vv))
            raise Undecided("dict updated by a loop")
        else:
            if not dep_other:
                # numeric accumulation
                if all(tm.leaf_num(l) and (tm.is_numeric(l)) for l in tm.leaves(v)) and tm.is_numeric(c):
                    g = arith("-", v, c)
                    if not contains(g, c):
                        bv, (b,) = closed(g)
                        return arith("+", init, lift_sum(C, b, bv))
                if contains(v, c):
                    conds = lift(lambda l: FALSE if l is c else TRUE, v)
                    if not contains(conds, c) and all(l is c or not contains(l, c) for l in tm.leaves(v)):
                        w = restrict(lift(lambda l: UNDEF if l is c else l, v), conds)
                        bv, (g, b) = closed(conds, w)
                        g = to_bool(g)
                        anyc = tm.mkany(C, g, bv)
                        le = tm.mkfirst(tm.mkrev(C), g, bv, e.args[2])
                        return ite(anyc, subst(b, {bv: le}), init)
                else:
                    last = tm.mkidx(tm.mkrev(C), ZERO)
                    return ite(nonempty, subst(v, {e: last}), init)
            elif not contains(v, c) and init is UNDEF:
                return UNDEF if True else None
        deps = [c] + [x for x in others if contains(v, x)]
        inits, cvm, h, bv, keys = self.fold_terms(st, carries, cont, deps, C, FALSE, e, full=True)
        r = mk("fold", c.args[2], C, inits, FALSE, bv, keys.index(k))
        if k[0] == "c":
            return opq(r)
        return r

    def fold_terms(self, st, carries, cont, deps, C, stop, e, full=False):
        """close the transition functions over the dependency closure of deps"""
        clos = []
        todo = list(deps)
        inv = {c: k for k, c in carries.items()}
        while todo:
            c = todo.pop(0)
            if c in clos:
                continue
            clos.append(c)
            v = cont.get(inv[c])
            if v is not None:
                for x in carries.values():
                    if x not in clos and contains(v, x):
                        todo.append(x)
        if stop.op == "ite":
            for x in carries.values():
                if contains(stop, x) and x not in clos:
                    clos.append(x)
                    v = cont.get(inv[x])
                    if v is not None:
                        todo += [y for y in carries.values() if contains(v, y) and y not in clos]
            while todo:
                c = todo.pop(0)
                if c in clos:
                    continue
                clos.append(c)
                v = cont.get(inv[c])
                if v is not None:
                    todo += [y for y in carries.values() if contains(v, y) and y not in clos]

        def nm(c):
            n = c.args[1]
            if n[0] == "var":
                return (1, n[1].id, n[2])
            return (0, n[1].id, n[2] if len(n) > 2 and isinstance(n[2], str) else "")
        clos.sort(key=nm)
        keys = [inv[c] for c in clos]
        vals = [cont.get(k, UNDEF) for k in keys]
        h = tm.maxbv(*(vals + ([stop] if stop.op == "ite" else []))) + 1
        bv = mk("bv", h, e.args[2])
        cvm = {c: mk("cv", h, i, c.args[2]) for i, c in enumerate(clos)}
        trans = [subst(subst(v, cvm), {e: bv}) for v in vals]
        inits = tuple((self._init(st, k), t) for k, t in zip(keys, trans))
        return inits, cvm, h, bv, keys

    def _freeze_seq(self, s, v, c0, e):
        return lift(lambda l: mkseq(tuple(item(self._freeze_val(s, x.args[0], c0, e)) if x.op == "item" else x for x in l.args))
                    if l.op == "seq" else l, v)

    def _freeze_val(self, s, v, c0, e):
        """replace lists and dicts allocated in the iteration by their contents"""
        def f(l):
            if l.op == "new" and self._local(l, c0):
                if l.args[0] in ("list", "gen"):
                    return self._freeze_seq(s, self.content(s, l), c0, e)
                if l.args[0] == "dict":
                    return lift(lambda d: mkdict(d.args[0], tuple((a, self._freeze_val(s, b, c0, e)) for a, b in d.args[1])), self.content(s, l))
                raise Undecided("object allocated in a loop of unknown length escapes it")
            if l.op == "tuple":
                return mk("tuple", *[self._freeze_val(s, x, c0, e) for x in l.args])
            if l.op == "ev":
                return mk("ev", *[self._freeze_val(s, x, c0, e) if isinstance(x, T) else x for x in l.args])
            return l
        return lift(f, v)

    def x_While(self, st, n, out):
        # peel while the number of iterations is provably small
        limit = 5 if self.bound is not None else 3
        s = st.copy()
        done = []
        lret = []
        self.sinks.append([])
        ok = False
        try:
            i = sure = 0        # iterations that may take place; that do, for certain
            while True:
                c = self.branch(s, self.cond(s, n.test))
                if s.pc is FALSE:
                    ok = True
                    break
                if c is not TRUE:
                    x = s.copy(AND(s.pc, NOT(c)))
                    lo = Out(lret)
                    self.block(x, n.orelse, lo)
                    done.append(x)
                    if c is FALSE:
                        ok = True
                        break
                s.pc = AND(s.pc, c)
                if c is TRUE and sure < (1200 if self.bound is not None else 40):
                    sure += 1
                elif i == limit:
                    break
                else:
                    i += 1
                lo = Out(lret)
                self.block(s, n.body, lo)
                done += lo.brk
                s.become(self.join([s] + lo.cont))
                if s.pc is FALSE or not theory.feasible(s.pc):
                    ok = True
                    break
        finally:
            sk = self.sinks.pop()
        if ok or self.bound is not None:
            if not ok:
                self.used_bound = True
            self.sinks[-1] += sk
            out.ret += lret
            st.become(self.join(done))
            return
        brk = self.while_summary(st, n, out)
        st.become(self.join([st] + brk))

    # ------------------------------------------------------------------ expressions
    def ev(self, st, n):
        if st.pc is FALSE:
            return UNDEF
        self.tick(n)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression %s at %s" % (type(n).__name__, self.loc(n)))
        return m(st, n)

    def e_Constant(self, st, n):
        if isinstance(n.value, (bytes, complex)) or n.value is Ellipsis:
            return mk("const", repr(n.value))
        return const(n.value)

    def e_Name(self, st, n):
        return self.load_name(st, n.id, n)

    def e_Attribute(self, st, n):
        b = self.ev(st, n.value)
        if st.pc is FALSE:
            return UNDEF
        return self.load_attr(st, b, n.attr, n)

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_IfExp(self, st, n):
        c = self.branch(st, self.cond(st, n.test))
        if st.pc is FALSE:
            return UNDEF
        if c is TRUE:
            return self.ev(st, n.body)
        if c is FALSE:
            return self.ev(st, n.orelse)
        s1, s2 = st.copy(AND(st.pc, c)), st.copy(AND(st.pc, NOT(c)))
        v1, v2 = self.ev(s1, n.body), self.ev(s2, n.orelse)
        j, v = self.join_vals([(s1, v1), (s2, v2)])
        st.become(j)
        return v

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)

        def go(s, vals):
            v = self.ev(s, vals[0])
            if len(vals) == 1 or s.pc is FALSE:
                return v
            c = self.truth(s, v, n)
            self.note(c, vals[0])
            c = self.branch(s, c)
            if s.pc is FALSE:
                return UNDEF
            if c is (FALSE if isand else TRUE):
                return v
            if c is (TRUE if isand else FALSE):
                return go(s, vals[1:])
            cc = c if isand else NOT(c)
            s1, s2 = s.copy(AND(s.pc, cc)), s.copy(AND(s.pc, NOT(cc)))
            v1 = go(s1, vals[1:])
            j, r = self.join_vals([(s1, v1), (s2, restrict(v, s2.pc))])
            s.become(j)
            return r

        return go(st, n.values)

    def e_UnaryOp(self, st, n):
        if isinstance(n.op, ast.Not):
            return NOT(self.cond(st, n.operand))
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.USub):
            return self.guard(st, tm.neg(v), n)
        if isinstance(n.op, ast.UAdd):
            return v
        if typeof(v) == INT:
            return tm.arith("-", tm.neg(v), ONE)
        raise Undecided("operator ~")

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        return self.binop(st, type(n.op).__name__, a, b, n)

    def binop(self, st, opn, a, b, node):
        if st.pc is FALSE:
            return UNDEF
        op = self.OPS.get(opn)
        a, b = restrict(a, st.pc), restrict(b, st.pc)
        ls = tm.leaves(a) + tm.leaves(b)
        if opn in ("BitOr", "BitAnd", "Sub") and all(l.op == "new" and l.args[0] == "set" for l in ls):
            from . import builtins_ as bi
            name = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference"}[opn]
            return bi.call_builtin_method(self, st, a, name, [b], {}, node) if a.op == "new" else self.dispatch(
                st, a, lambda q, l: bi.call_builtin_method(self, q, l, name, [b], {}, node))
        if opn in ("BitOr", "BitAnd") and all(l is TRUE or l is FALSE or typeof(l) == BOOL for l in ls):
            return (OR if opn == "BitOr" else AND)(tm.to_bool(a), tm.to_bool(b))
        if opn == "BitOr" and all(unopt(typeof(l))[0] == "dict" and l.op == "new" for l in ls):
            return self.merged(st, a, b, node)
        if op is None:
            raise Undecided("operator %s" % opn)
        if any(l.op == "new" and l.args[0] == "set" for l in tm.leaves(a) + tm.leaves(b)):
            raise Undecided("operator on sets")
        isl = lambda v: any(unopt(typeof(l))[0] == "list" or l.op in ("seq", "tuple") for l in tm.leaves(v))
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        if op == "+" and isl(a) and isl(b):
            return self.new_list(st, concat(self.to_seq(st, a, node), self.to_seq(st, b, node)))
        if op == "*" and a.op == "tuple" and b.op == "num" and b.args[0].denominator == 1:
            return mk("tuple", *(a.args * int(b.args[0])))
        if op == "*" and (isl(a)):
            seq = self.to_seq(st, a, node)
            return self.new_list(st, arith("*", seq, b))
        if op == "%" and all(l.op == "const" and isinstance(l.args[0], str) for l in tm.leaves(a)):
            return lift(lambda x: self.percent(x, b), a)
        if any(unopt(typeof(l))[0] in ("obj",) for l in tm.leaves(a)):
            raise Undecided("operator on an object")
        if op in ("//", "%") and any(l is ZERO for l in tm.leaves(b)):
            self.raise_if(st, self.branch(st, lift(lambda l: TRUE if l is ZERO else FALSE, b)), self.exc("ZeroDivisionError"), node)
            if st.pc is FALSE:
                return UNDEF
            a, b = restrict(a, st.pc), restrict(b, st.pc)
        return self.guard(st, arith(op, a, b), node)

    def merged(self, st, a, b, node):
        from . import builtins_ as bi
        r = bi.b_dict(self, st, [a], {}, node)
        bi.dict_method(self, st, r, "update", [b], {}, node)
        return r

    def percent(self, f, b):
        parts = f.args[0].split("%s")
        args = list(b.args) if b.op == "tuple" else [b]
        if len(parts) == len(args) + 1 and not any("%" in p for p in parts):
            out = [const(parts[0])]
            for x, p in zip(args, parts[1:]):
                out += [self.tostr(x), const(p)]
            return lift(lambda *xs: mkstr(list(xs)), *out)
        return mk("app", "strfmt", f, b)

    def e_Compare(self, st, n):
        l = self.ev(st, n.left)
        res = TRUE
        s = st
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(s, rn)
            c = self.compare(s, op, l, r, n)
            res = AND(res, c)
            l = r
        return res

    def compare(self, st, op, l, r, node):
        if st.pc is FALSE:
            return FALSE
        l, r = restrict(l, st.pc), restrict(r, st.pc)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            c = self.equal(st, l, r, isinstance(op, (ast.Is, ast.IsNot)), node)
            c = to_bool(c)
            return NOT(c) if isinstance(op, (ast.NotEq, ast.IsNot)) else c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = to_bool(self.contains(st, l, r, node))
            return NOT(c) if isinstance(op, ast.NotIn) else c
        if any(x.op == "new" and x.args[0] == "set" for x in tm.leaves(l) + tm.leaves(r)):
            raise Undecided("comparison of sets")
        if any(unopt(typeof(x))[0] in ("obj", "list", "dict") or x.op == "tuple" for x in tm.leaves(l) + tm.leaves(r)):
            return self.ordered(st, op, l, r, node)
        if isinstance(op, ast.Gt):
            c = gt(l, r)
        elif isinstance(op, ast.Lt):
            c = gt(r, l)
        elif isinstance(op, ast.GtE):
            c = ge(l, r)
        else:
            c = ge(r, l)
        c = self.guard(st, c, node)
        return to_bool(restrict(c, st.pc)) if c is not UNDEF else FALSE

    def ordered(self, st, op, l, r, node):
        """order of lists, tuples and objects that define it"""
        names = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"), ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}[type(op)]
        if l.op != "ite" and r.op != "ite":
            tl, tr = unopt(typeof(l)), unopt(typeof(r))
            if tl[0] == tr[0] == "obj":
                F, G = self.prog.find_method(tl[1], names[0]), self.prog.find_method(tr[1], names[1])
                if F is not None:
                    return self.truth(st, self.call_func(st, F, None, l, [r], {}, node), node)
                if G is not None:
                    return self.truth(st, self.call_func(st, G, None, r, [l], {}, node), node)
            elif (l.op == "tuple") == (r.op == "tuple") and tl[0] == tr[0]:
                a, b = self.to_seq(st, l, node), self.to_seq(st, r, node)
                if a.op == b.op == "seq" and all(x.op == "item" for x in a.args + b.args):
                    res = tm.boolc(len(a.args) < len(b.args) if isinstance(op, ast.Lt) else len(a.args) > len(b.args) if isinstance(op, ast.Gt)
                                   else len(a.args) <= len(b.args) if isinstance(op, ast.LtE) else len(a.args) >= len(b.args))
                    for x, y in reversed(list(zip(a.args, b.args))):
                        same = to_bool(self.equal(st, x.args[0], y.args[0], False, node))
                        if same is TRUE:
                            continue
                        strict = self.compare(st, ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt(), x.args[0], y.args[0], node)
                        res = ite(same, res, strict)
                    return to_bool(res)
        raise Undecided("order of lists or objects")

    def equal(self, st, l, r, ident, node):
        if not ident and any(x.op == "new" and x.args[0] == "set" for x in tm.leaves(l) + tm.leaves(r)):
            raise Undecided("comparison of sets")
        def isref(x):
            return unopt(typeof(x))[0] in ("list", "dict") or x.op in ("seq", "dict")
        if not ident and any(isref(x) for x in tm.leaves(l)) and any(isref(x) for x in tm.leaves(r)):
            a, b = self.freeze(st, l), self.freeze(st, r)

            def f(x, y):
                if x is y:
                    return TRUE
                if x.op == "seq" and y.op == "seq":
                    if all(z.op == "item" for z in x.args + y.args):
                        if len(x.args) != len(y.args):
                            return FALSE
                        c = TRUE
                        for p, q in zip(x.args, y.args):
                            c = AND(c, to_bool(eq(p.args[0], q.args[0])))
                        return c
                    if not x.args or not y.args:
                        return NOT(truth(x if x.args else y))
                if x.op == "dict" and y.op == "dict" and (x is EMPTYD or y is EMPTYD):
                    return NOT(truth(x if y is EMPTYD else y))
                return tm.atomv(mk("app", "eq", *((x, y) if x.id < y.id else (y, x))))

            return lift(f, a, b)
        for x in tm.leaves(l):
            ty = unopt(typeof(x))
            if not ident and ty[0] == "obj" and self.prog.find_method(ty[1], "__eq__"):
                F = self.prog.find_method(ty[1], "__eq__")
                return self.dispatch(st, l, lambda s, q: to_bool(truth(self.call_func(s, F, None, q, [r], {}, node)))
                                     if unopt(typeof(q))[0] == "obj" else eq(q, r))
        return eq(l, r)

    def contains(self, st, x, coll, node):
        def f(s, c):
            if c.op == "ext":
                if c.args[0] == "pytz.all_timezones_set":
                    c = mk("ext", "pytz.all_timezones")
                tz = c.args[0] == "pytz.all_timezones"
                return lift(lambda q: TRUE if tz and q.op == "const" and q.args[0] == "UTC" else mk("app", "in", q, c), x)
            if c.op == "const" and isinstance(c.args[0], str):
                return lift(lambda q: tm.boolc(q.args[0] in c.args[0]) if q.op == "const" else mk("app", "in", q, c), x)
            ty = unopt(typeof(c))
            if ty[0] == "dict" or c.op == "dict":
                d = c if c.op == "dict" else self.content(s, c)
                return d_haskey(d, x)
            if ty == STR:
                return mk("app", "in", x, c)
            if ty[0] == "obj" and self.prog.find_method(ty[1], "__contains__"):
                return self.truth(s, self.call_func(s, self.prog.find_method(ty[1], "__contains__"), None, c, [x], {}, node), node)
            seq = self.to_seq(s, c, node, ordered=None)
            return self.seq_in(s, x, seq, node)

        return self.dispatch(st, coll, f)

    def e_Call(self, st, n):
        # super() / super(X, self)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.prog.resolve(self.stack[-1][0].module, "super") is None:
            F, fid, parent, nl = self.stack[-1]
            if n.args:
                c = self.ev(st, n.args[0])
                o = self.ev(st, n.args[1])
                return lift(lambda x: mk("super", x, c.args[0]), o)
            G = F
            if G.cls is None:
                raise Undecided("super() outside of a method")
            selfname = G.node.args.args[0].arg
            o = st.store[("v", fid, selfname)]
            return lift(lambda x: mk("super", x, G.cls.name), o)
        f = self.ev(st, n.func)
        args, kwargs, stars = [], {}, []
        if st.pc is FALSE:
            return UNDEF
        # spec builtins taking unevaluated structure are handled by value (lambdas)
        for a in n.args:
            if isinstance(a, ast.Starred):
                seq = self.to_seq(st, self.ev(st, a.value), n)
                if seq.op != "seq" or any(x.op != "item" for x in seq.args):
                    raise Undecided("star argument of unknown length")
                args += [x.args[0] for x in seq.args]
            else:
                args.append(self.ev(st, a))
        for k in n.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                if st.pc is FALSE:
                    return UNDEF
                stars.append(v)
            else:
                kwargs[k.arg] = v
        if st.pc is FALSE:
            return UNDEF
        self.call_sites += 1
        if not stars:
            return self.call(st, f, args, kwargs, n)
        prs = []
        for c, kw in self.star_kwargs(st, stars, kwargs, n):
            s = st.copy(AND(st.pc, c))
            if s.pc is FALSE or not theory.feasible(s.pc):
                continue
            if kw is None:
                self.raise_(s, self.exc("TypeError"), n)
                continue
            r = self.call(s, f, args, kw, n)
            prs.append((s, r))
        j, r = self.join_vals(prs)
        st.become(j)
        return r

    def star_kwargs(self, st, stars, kwargs, n):
        """[(condition, {name: value})] for the ** arguments of a call"""
        outs = [(TRUE, dict(kwargs))]
        for v in stars:
            alts = []
            for l, c in self.split(st, v):
                d0 = l if l.op == "dict" else self.content(st, l)
                for d, c2 in self.split(st, d0):
                    if d.op != "dict" or d.args[0] is not NONE or any(a.op != "const" for a, b in d.args[1]):
                        if theory.feasible(AND(st.pc, AND(c, c2))):
                            raise Undecided("keyword arguments of an unknown dict")
                        continue
                    parts = [(AND(c, c2), {})]
                    for a, b in d.args[1]:
                        gone = lift(lambda x: TRUE if x is UNDEF else FALSE, b)
                        nxt = []
                        for g, kw in parts:
                            for val, h in ((b, NOT(gone)), (None, gone)):
                                g2 = AND(g, h)
                                if g2 is FALSE:
                                    continue
                                if val is None:
                                    nxt.append((g2, kw))
                                else:
                                    nxt.append((g2, dict(kw, **{a.args[0]: restrict(val, g2)})))
                        parts = nxt
                    alts += parts
            merged = []
            for g, kw in alts:
                if not theory.feasible(AND(st.pc, g)):
                    continue
                for i, (g0, kw0) in enumerate(merged):
                    if list(kw0) and set(kw0) == set(kw):
                        merged[i] = (OR(g0, g), {x: ite(g0, kw0[x], kw[x]) for x in kw0})
                        break
                else:
                    merged.append((g, kw))
            nxt = []
            for g0, kw0 in outs:
                for g, kw in merged:
                    nxt.append((AND(g0, g), None if kw0 is None or set(kw0) & set(kw) else dict(kw0, **kw)))
            outs = nxt
        return outs

    def e_Lambda(self, st, n):
        F = Func("<lambda>", n, self.stack[-1][0].module)
        F.qual = self.stack[-1][0].qual + ".<lambda>"
        fid = self.stack[-1][1]
        self.captured.add(fid)
        return self.closure(st, F, fid)

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(st, v.value)
                if v.format_spec is not None:
                    sp = self.ev(st, v.format_spec)
                    from .builtins_ import fmt_value
                    parts.append(fmt_value(self, x, sp))
                else:
                    parts.append(self.tostr(x))
        if st.pc is FALSE:
            return UNDEF
        return lift(lambda *xs: mkstr(list(xs)), *[restrict(p, st.pc) for p in parts]) if parts else const("")

    def e_FormattedValue(self, st, n):
        return self.tostr(self.ev(st, n.value))

    def tostr(self, v):
        def f(x):
            if x.op == "const" and not isinstance(x.args[0], str):
                return const(str(x.args[0]))
            if x.op == "num" and x.args[0].denominator == 1:
                return const(str(int(x.args[0])))
            if x.op in ("const", "undef") or typeof(x) == STR:
                return x
            return mk("app", "str", x)
        return lift(f, v)

    def e_Tuple(self, st, n):
        xs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                seq = self.to_seq(st, self.ev(st, e.value), n)
                if seq.op != "seq" or any(x.op != "item" for x in seq.args):
                    raise Undecided("star in a tuple")
                xs += [x.args[0] for x in seq.args]
            else:
                xs.append(self.ev(st, e))
        return mk("tuple", *xs)

    def e_List(self, st, n):
        seq = EMPTY
        for e in n.elts:
            if isinstance(e, ast.Starred):
                seq = concat(seq, self.to_seq(st, self.ev(st, e.value), n))
            else:
                seq = concat(seq, mkseq((item(self.ev(st, e)),)))
        return self.new_list(st, seq)

    def e_Set(self, st, n):
        seq = EMPTY
        for e in n.elts:
            if isinstance(e, ast.Starred):
                seq = concat(seq, self.to_seq(st, self.ev(st, e.value), n))
            else:
                seq = concat(seq, mkseq((item(self.ev(st, e)),)))
        return self.new_set(st, seq)

    def e_Dict(self, st, n):
        d = EMPTYD
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(st, v)
                d = self.dict_merge(st, d, o, n)
            else:
                kk = self.ev(st, k)
                vv = self.ev(st, v)
                d = lift(lambda x, q: mkdict(x.args[0], x.args[1] + ((q, vv),)), d, kk)
        return self.new_dict(st, d)

    def dict_merge(self, st, d, other, node):
        def f(s, l):
            o = l if l.op == "dict" else self.content(s, l)

            def g(x, y):
                if y.args[0] is NONE:
                    return mkdict(x.args[0], x.args[1] + y.args[1])
                if x is EMPTYD:
                    return y
                raise Undecided("merge with a dict of unknown keys")
            return lift(g, d, o)
        return self.dispatch(st, other, f)

    def e_Subscript(self, st, n):
        b = self.ev(st, n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(st, n.slice.lower) if n.slice.lower else None
            hi = self.ev(st, n.slice.upper) if n.slice.upper else None
            step = self.ev(st, n.slice.step) if n.slice.step else None

            def f(s, l):
                if l.op == "const" and isinstance(l.args[0], str) or typeof(l) == STR:
                    return mk("app", "strslice", l, lo if lo is not None else NONE, hi if hi is not None else NONE)
                if l.op == "tuple" and all(q is None or q.op == "num" for q in (lo, hi, step)):
                    ii = [None if q is None else int(q.args[0]) for q in (lo, hi, step)]
                    return mk("tuple", *l.args[slice(*ii)])
                if typeof(l) == ANY and l.op == "app":
                    return mk("app", "strslice", l, lo if lo is not None else NONE, hi if hi is not None else NONE)
                seq = self.to_seq(s, l, n)
                r = self.seq_slice(s, seq, lo, hi, step, n)
                return self.new_list(s, r)

            return self.dispatch(st, b, f)
        k = self.ev(st, n.slice)
        return self.getitem(st, b, k, n)

    def getitem(self, st, b, k, node):
        def f(s, l):
            if l is NONE:
                self.raise_(s, self.exc("TypeError"), node)
                return UNDEF
            if l.op == "class" and self.prog.classes[l.args[0]].is_enum and k.op == "const":
                return self.class_attr(s, l.args[0], k.args[0], node)
            ty = typeof(l)
            if ty[0] == "opt":
                self.raise_if(s, isnone(l), self.exc("TypeError"), node)
                ty = ty[1]
            if l.op == "dict" or ty[0] == "dict":
                d = l if l.op == "dict" else self.content(s, l)
                h = restrict(to_bool(d_haskey(d, k)), s.pc)
                make = s.store.get(("f", l, "#factory"), NONE) if l.op == "new" else NONE
                if make is not NONE and h is not TRUE:
                    q = s.copy(AND(s.pc, NOT(h)))
                    s.pc = AND(s.pc, h)
                    if q.pc is not FALSE and theory.feasible(q.pc):
                        v = self.call(q, make, [], {}, node)
                        self.setitem(q, l, k, v, node)
                        s.become(self.join([s, q]))
                    return restrict(d_val(self.content(s, l), k), s.pc)
                self.raise_if(s, NOT(h), self.exc("KeyError"), node)
                return restrict(d_val(d, k), s.pc) if s.pc is not FALSE else UNDEF
            if ty[0] == "obj" and l.op != "seq":
                F = self.prog.find_method(ty[1], "__getitem__")
                if F:
                    return self.call_func(s, F, None, l, [k], {}, node)
            if ty == STR or ty == ANY and l.op == "app":
                return mk("app", "strget", l, k)
            seq = self.to_seq(s, l, node, consume=False)
            return self.seq_get(s, seq, k, node)

        return self.dispatch(st, b, f)

    def e_Starred(self, st, n):
        raise Undecided("starred expression")

    # comprehensions
    def comp(self, st, n, elts, emit):
        first = self.ev(st, n.generators[0].iter)
        self.run_comp(st, n, self.stack[-1], first, elts, lambda s, v, o: emit(s, *v), Out(), None)

    def run_comp(self, st, n, home, first, elts, emit, out, orelse):
        F, fid, parent, nl = home
        self.fid_n += 1
        cf = self.fid_n
        self.frames[cf] = (fid,)
        self.captured.add(fid)
        inside = self.stack + [(F, cf, fid, ())]

        def within(f):
            was, self.stack = self.stack, inside
            try:
                return f()
            finally:
                self.stack = was

        def gen(s, i, o):
            g = n.generators[i]
            it = first if i == 0 else within(lambda: self.ev(s, g.iter))

            def body(q, v, lo):
                def filtered():
                    self.assign(q, g.target, v)
                    rest = []
                    for t in g.ifs:
                        c = self.branch(q, self.cond(q, t))
                        if q.pc is FALSE:
                            break
                        if c is FALSE:
                            rest.append(q.copy())
                            q.pc = FALSE
                            break
                        if c is not TRUE:
                            rest.append(q.copy(AND(q.pc, NOT(c))))
                            q.pc = AND(q.pc, c)
                    return rest

                rest = within(filtered)
                if q.pc is not FALSE:
                    if i + 1 < len(n.generators):
                        gen(q, i + 1, Out(lo.ret))
                    else:
                        vs = within(lambda: [self.ev(q, x) for x in elts])
                        if q.pc is not FALSE:
                            emit(q, vs, lo)
                q.become(self.join([q] + rest))

            self.iterate(s, it, body, o, orelse if i == 0 else None, n)

        gen(st, 0, out)
        for k in [k for k in st.store if k[0] == "v" and k[1] == cf]:
            if cf not in self.captured:
                del st.store[k]

    def detached(self, st, run, emit, out, orelse):
        """a `break` or a `return` met while an element is used leaves all the loops that make the elements"""
        mine = Out()

        def use(s, v, o):
            sub = Out()
            emit(s, v, sub)
            s.become(self.join([s] + sub.cont))
            o.ret += [(q, BREAK) for q in sub.brk]
            o.ret += [(q, mk("tuple", LEAVE, x)) for q, x in sub.ret]

        nf = run(st, use, mine)
        done, left = [], []
        if nf is not None and nf not in self.captured:
            for q in [st] + [q for q, v in mine.ret]:
                for k in [k for k in q.store if k[0] == "v" and k[1] == nf]:
                    del q.store[k]
        for q, v in mine.ret:
            for l, c in self.split(q, v):
                x = q.copy(AND(q.pc, c))
                if x.pc is FALSE:
                    continue
                if l is BREAK:
                    left.append(x)
                elif l.op == "tuple" and l.args and l.args[0] is LEAVE:
                    out.ret.append((x, l.args[1]))
                else:
                    done.append(x)
        st.become(self.join([st] + done))
        if orelse is not None and st.pc is not FALSE:
            orelse(st)
        st.become(self.join([st] + left))

    def e_ListComp(self, st, n):
        ref = self.new("list")
        st.store[("c", ref)] = EMPTY

        def emit(s, v):
            s.store[("c", ref)] = concat(s.store[("c", ref)], mkseq((item(v),)))

        self.comp(st, n, [n.elt], emit)
        return ref

    def e_SetComp(self, st, n):
        return self.new_set(st, self.to_seq(st, self.e_ListComp(st, n), n))

    def e_GeneratorExp(self, st, n):
        first = self.ev(st, n.generators[0].iter)
        if st.pc is FALSE:
            return UNDEF
        home = self.stack[-1]
        self.captured.add(home[1])

        def run(s, emit, out, orelse):
            def loops(q, use, o, last=None):
                self.run_comp(q, n, home, first, [n.elt], lambda x, v, lo: use(x, v[0], lo), o, last)

            if len(n.generators) == 1:
                loops(s, emit, out, orelse)
            else:
                self.detached(s, loops, emit, out, orelse)

        return self.lazy(st, run)

    def e_DictComp(self, st, n):
        ref = self.new("dict")
        st.store[("c", ref)] = EMPTYD

        def emit(s, k, v):
            s.store[("c", ref)] = lift(lambda x, q: mkdict(x.args[0], x.args[1] + ((q, v),)), s.store[("c", ref)], k)

        self.comp(st, n, [n.key, n.value], emit)
        return ref

    def e_Yield(self, st, n):
        v = self.ev(st, n.value) if n.value is not None else NONE
        k = ("y", self.stack[-1][1])
        st.store[k] = concat(st.store.get(k, EMPTY), mkseq((item(v),)))
        return NONE

    def e_YieldFrom(self, st, n):
        seq = self.to_seq(st, self.ev(st, n.value), n)
        k = ("y", self.stack[-1][1])
        st.store[k] = concat(st.store.get(k, EMPTY), seq)
        return NONE

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, node):
        return self.dispatch(st, f, lambda s, l: self.call_leaf(s, l, args, kwargs, node))

    def call_leaf(self, st, f, args, kwargs, node):
        op = f.op
        if op == "func":
            F, fid = self.funcs[f.args[0]]
            if F.cls is not None and F.kind == "method" and args:
                return self.call_func(st, F, fid, args[0], args[1:], kwargs, node)
            return self.call_func(st, F, fid, None, args, kwargs, node)
        if op == "meth":
            b, name = f.args
            return self.call_method(st, b, name, args, kwargs, node)
        if op == "supermeth":
            b, after, name = f.args
            F = self.prog.find_method(unopt(typeof(b))[1], name, after=after)
            return self.call_func(st, F, None, b, args, kwargs, node)
        if op == "class":
            return self.construct(st, f.args[0], args, kwargs, node)
        if op == "builtin":
            from .builtins_ import call_builtin
            return call_builtin(self, st, f.args[0], args, kwargs, node)
        if op == "ext":
            from .builtins_ import call_ext
            return call_ext(self, st, f.args[0], args, kwargs, node)
        if op == "partial":
            fn, pa, pk = f.args
            kw = {k: v for k, v in pk}
            kw.update(kwargs)
            return self.call(st, fn, list(pa) + args, kw, node)
        if f is NONE:
            self.raise_(st, self.exc("TypeError"), node)
            return UNDEF
        if op in ("undef", "err"):
            return UNDEF
        ty = unopt(typeof(f))
        if ty[0] == "obj" and self.prog.find_method(ty[1], "__call__"):
            return self.call_func(st, self.prog.find_method(ty[1], "__call__"), None, f, args, kwargs, node)
        # unknown callable: an event with an unknown result
        fa = [self.freeze(st, a) for a in args] + [mk("tuple", const(k), self.freeze(st, v)) for k, v in sorted(kwargs.items())]
        self.event(st, "call", [f] + fa)
        return mk("ret", "call", ANY, f, *fa)

    def call_method(self, st, b, name, args, kwargs, node):
        if b.op == "class":
            F = self.prog.find_method(b.args[0], name)
            return self.call_func(st, F, None, b, args, kwargs, node)
        ty = unopt(typeof(b))
        if ty[0] == "enum" and ty[1] in self.prog.classes and self.prog.find_method(ty[1], name) is not None or (
                ty[0] == "obj" and ty[1] in self.prog.classes):
            F = self.prog.find_method(ty[1], name)
            if F is None:
                self.raise_(st, self.exc("AttributeError"), node)
                return UNDEF
            if F.kind == "static":
                return self.call_func(st, F, None, None, args, kwargs, node)
            if F.kind == "classm":
                return self.call_func(st, F, None, mk("class", ty[1]), args, kwargs, node)
            return self.call_func(st, F, None, b, args, kwargs, node)
        from .builtins_ import call_builtin_method
        return call_builtin_method(self, st, b, name, args, kwargs, node)

    def construct(self, st, cls, args, kwargs, node):
        c = self.prog.classes[cls]
        if c.is_exc:
            return self.exc(cls)
        if c.is_enum:
            if len(args) == 1:
                for m in c.members:
                    v = self.in_module(st, c.module, c.members[m])
                    if v is args[0]:
                        return mk("enum", cls, m)
            raise Undecided("enum built from a value")
        for x in c.mro:
            if x.odd:
                raise Undecided("instance of %s: %s" % (cls, x.odd))
        ref = self.new(cls)
        F = self.prog.find_method(cls, "__init__")
        if F is not None:
            self.call_func(st, F, None, ref, args, kwargs, node)
        elif any(isinstance(d, ast.Name) and d.id == "dataclass" for d in c.node.decorator_list):
            raise Undecided("dataclass")
        elif c.foreign or any(b.foreign for b in c.mro):
            raise Undecided("instance of %s" % cls)
        return ref

    def observed_as(self, F):
        if F.cls is None:
            return self.observed.get(F.module.name.split(".")[-1] + "." + F.name)
        if not self.observed:
            return None
        for q in ([F.cls.name] + [c.name for c in F.cls.mro]):
            o = self.observed.get(q + "." + F.name)
            if o is not None and (q == F.cls.name or not o.get("exact")):
                return o
        return None

    def bind(self, st, F, fid, selfv, args, kwargs, node):
        """-> {param: value} or None after raising TypeError"""
        a = F.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        actual = ([selfv] if selfv is not None else []) + list(args)
        if len(actual) > len(pos):
            if a.vararg is None:
                self.raise_(st, self.exc("TypeError"), node)
                return None
            vals[a.vararg.arg] = mk("tuple", *actual[len(pos):])
            actual = actual[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = mk("tuple")
        for p, v in zip(pos, actual):
            vals[p] = v
        extra = []
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vals:
                    self.raise_(st, self.exc("TypeError"), node)
                    return None
                vals[k] = v
            elif a.kwarg is not None:
                extra.append((const(k), v))
            else:
                self.raise_(st, self.exc("TypeError"), node)
                return None
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for p in list(pos) + [x.arg for x in a.kwonlyargs]:
            if p not in vals:
                if p not in defs:
                    self.raise_(st, self.exc("TypeError"), node)
                    return None
                if F.defs is not None and p in F.defs:
                    vals[p] = F.defs[p]
                elif fid is None:
                    if p.startswith("_"):
                        self.unseen.add(id(defs[p]))
                    vals[p] = self.once(st, defs[p], lambda: self.in_module(st, F.module, defs[p]))
                else:
                    self.stack.append((F, fid, None, ()))
                    try:
                        vals[p] = self.ev(st, defs[p])
                    finally:
                        self.stack.pop()
        if a.kwarg is not None:
            vals["**" + a.kwarg.arg] = mkdict(NONE, tuple(extra))
        return vals

    def call_func(self, st, F, fid, selfv, args, kwargs, node):
        if st.pc is FALSE:
            return UNDEF
        if F.memo == "?" and fid is None and F.kind in ("method", "get", "set", "static", "func"):
            v = self.once(st, F.node, lambda: self.decorated(st, F))
            return self.call(st, v, ([] if selfv is None else [selfv]) + list(args), kwargs, node)
        vals = self.bind(st, F, fid, selfv, args, kwargs, node)
        if vals is None or st.pc is FALSE:
            return UNDEF
        if F.memo == "?":
            raise Undecided("decorator of %s" % F.qual)
        if F.memo:
            key = ("m", id(F.node), tuple((k, v.id if isinstance(v, T) else str(v)) for k, v in sorted(vals.items())))

            def kept(s, l):
                if l is UNDEF:
                    r = self.run_func(s, F, fid, selfv, vals, node)
                    s.store[key] = r
                    return r
                return l

            return self.dispatch(st, st.store.get(key, UNDEF), kept)
        return self.run_func(st, F, fid, selfv, vals, node)

    def decorated(self, st, F):
        """what the decorators written in the package make of a function"""
        raw = Func(F.name, F.node, F.module, F.cls, F.kind if F.kind in ("static", "func") else "method", F.parent)
        raw.memo = None
        F.raw = raw
        v = self.func_leaf(raw)
        for d in reversed(F.node.decorator_list):
            x = d.func if isinstance(d, ast.Call) else d
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?"
            if nm in PLAIN_DECORATORS:
                continue
            if nm in ("lru_cache", "cache", "cached_property"):
                raise Undecided("decorator of %s" % F.qual)
            v = self.call(st, self.in_module(st, F.module, d), [v], {}, d)
            if v.op not in ("func", "prop"):
                raise Undecided("decorator of %s" % F.qual)
        return v

    def run_func(self, st, F, fid, selfv, vals, node):
        o = self.observed_as(F)
        if o is not None and not (o.get("skip") is not None and selfv is o["skip"]):
            return self.observed_call(st, F, vals, o, node)
        depth = sum(1 for x in self.stack if x[0].node is F.node)
        if depth >= 1:
            if not theory.feasible(st.pc):
                st.pc = FALSE
                return UNDEF
            lim = 6 if self.bound is not None else 4
            if depth >= lim:
                if self.bound is not None:
                    self.used_bound = True
                    st.pc = FALSE
                    return UNDEF
                raise Undecided("recursion in %s" % F.qual)
        if len(self.stack) > 40:
            raise Undecided("call depth")
        if F.module.name in self.prog.estrade_modules:
            self.visited[F.module.rel + ":" + F.qual] = F
        if not isinstance(F.node, ast.Lambda) and is_generator(F.node):
            if plain_yields(F.node):
                def run(s, emit, out, orelse):
                    self.detached(s, lambda q, use, o: self.run_body(q, F, fid, vals, o, use), emit, out, orelse)

                return self.lazy(st, run)
        out = Out()
        nf = self.run_body(st, F, fid, vals, out)
        rets = list(out.ret)
        if st.pc is not FALSE:
            rets.append((st.copy(), NONE))
        if not isinstance(F.node, ast.Lambda) and is_generator(F.node):
            rets2 = []
            for s, v in rets:
                y = s.store.pop(("y", nf), EMPTY)
                rets2.append((s, y))
            j, y = self.join_vals(rets2)
            st.become(j)
            if st.pc is FALSE:
                return UNDEF
            r = self.new("gen")
            st.store[("c", r)] = y
            v = r
        else:
            j, v = self.join_vals(rets)
            st.become(j)
        if nf not in self.captured:
            for k in [k for k in st.store if k[0] == "v" and k[1] == nf]:
                del st.store[k]
        return v

    def run_body(self, st, F, fid, vals, out, use=None):
        self.fid_n += 1
        nf = self.fid_n
        self.frames[nf] = (fid,)
        for p, v in vals.items():
            if p.startswith("**"):
                v = self.new_dict(st, v)
                p = p[2:]
            st.store[("v", nf, p)] = v
        self.stack = self.stack + [(F, nf, fid, ())]
        here = self.stack[:-1]
        if use is not None:
            self.users[nf] = use
        try:
            if isinstance(F.node, ast.Lambda):
                r = self.ev(st, F.node.body)
                if st.pc is not FALSE:
                    out.ret.append((st.copy(), r))
                st.pc = FALSE
            else:
                if use is None and is_generator(F.node):
                    st.store[("y", nf)] = EMPTY
                self.block(st, F.node.body, out)
        finally:
            self.stack = here
        return nf

    def observed_call(self, st, F, vals, o, node):
        name = o["name"]
        args = []
        for p, v in vals.items():
            fv = self.freeze(st, v) if isinstance(v, T) else v
            if p.startswith("**"):
                fv = lift(lambda d: mkdict(d.args[0], tuple(sorted(d.args[1], key=lambda kv: str(kv[0].args[0])))), fv)
            args.append(fv)
        if not o.get("silent"):
            ev = list(args)
            if o.get("see") is not None:
                ev.append(mk("saw", self.freeze(st, self.call(st, o["see"], [], {}, node))))
            self.event(st, name, ev)
        if o.get("model") is not None:
            selfless = [v for p, v in vals.items() if not p.startswith("**")]
            return self.call(st, o["model"], selfless, {}, node)
        ty = self.prog.ann_type(F.node.returns, F.module) if not isinstance(F.node, ast.Lambda) else ANY
        if isinstance(F.node.returns, ast.Constant) and F.node.returns.value is None:
            return NONE
        if o.get("type") is not None:
            ty = o["type"]
        if st.pc is FALSE:
            return UNDEF
        if any(a.op == "ite" for a in args):
            return lift(lambda *xs: mk("ret", name, ty, *xs), *args)
        return mk("ret", name, ty, *args)

    def event(self, st, name, args):
        if st.pc is FALSE:
            return
        self.dispatch_none(st)
        st.store[LOG] = concat(st.store.get(LOG, EMPTY), mkseq((item(mk("ev", name, *args)),)))

    def dispatch_none(self, st):
        pass

    def freeze(self, st, v, depth=0, up=()):
        """lists and dicts replaced by their contents; inside an outcome, the objects it created are replaced
        by the values of their fields"""
        if depth > 14:
            return const("#deep")

        def f(l):
            ty = unopt(typeof(l))
            if l.op == "new" and self.struct_base is not None and l.args[1] > self.struct_base.get(l.args[0], 0):
                if l.args[0] == "Thread":
                    return mk("obj", l.args[0])
                if l.args[0] in self.prog.classes:
                    return self.structure(st, l, depth, up)
            if l.op == "tuple":
                return mk("tuple", *[self.freeze(st, x, depth + 1, up) for x in l.args])
            if l.op in ("seq", "dict"):
                return fz(l)
            if ty[0] == "list" and l.op == "new":
                return fz(self.content(st, l))
            if ty[0] == "dict" and l.op == "new":
                return fz(self.content(st, l))
            if l.op == "new" and l.args[0] == "gen":
                return fz(self.content(st, l))
            if l.op == "new" and l.args[0] == "set":
                return mk("app", "set", fz(self.set_items(st, self.content(st, l), True)))
            if ty[0] in ("list", "dict") and ("c", l) in st.store:
                n = isnone(l)
                return ite(n, NONE, fz(self.content(st, l)))
            if ty[0] in ("list", "dict"):
                n = isnone(l)
                return ite(n, NONE, fz(self.content(st, l)))
            return l

        def fz(c):
            def g(s):
                if s.op == "seq":
                    return mkseq(tuple(item(self.freeze(st, x.args[0], depth + 1, up)) if x.op == "item" else x for x in s.args))
                if s.op == "dict":
                    return mkdict(s.args[0], tuple((a, self.freeze(st, b, depth + 1, up)) for a, b in s.args[1]))
                return s
            return lift(g, c)

        return restrict(lift(f, restrict(v, st.pc)), st.pc)

    def structure(self, st, l, depth, up):
        if l in up:
            return mk("obj", "#back", const(len(up) - up.index(l)))
        out = []
        for k in sorted((k for k in st.store if k[0] == "f" and k[1] is l), key=lambda k: k[2]):
            v = restrict(st.store[k], st.pc)
            if k[2].startswith("#") or any(x.op in ("meth", "func", "partial") for x in tm.leaves(v)):
                continue
            v = self.freeze(st, v, depth + 1, up + (l,))
            ids = {x: mk("app", "uuid4", 0) for x in tm.subterms(v) if x.op == "app" and x.args[0] == "uuid4"
                   and x.args[1] > self.struct_base.get("uuid4", 0)}
            out.append(mk("field", k[2], subst(v, ids) if ids else v))
        return mk("obj", l.args[0], *out)


def _or_items(q, xl):
    if q.op != "seq":
        return FALSE
    r = FALSE
    for s in q.args:
        if s.op != "item":
            raise Undecided("membership in a nested list")
        r = OR(r, to_bool(eq(xl, s.args[0])))
    return r


def truth_nonempty(body):
    return lift(lambda x: to_bool(truth(x)) if x.op == "seq" else FALSE, body)


def lift_sum(C, b, bv):
    return tm.mksum(C, b, bv)


BREAK, LEAVE = mk("tuple", const("#break")), const("#leave")


def plain_yields(node):
    """every yield is a statement of its own, not watched by a `try` or a `with`"""
    st = [(x, True) for x in node.body]
    while st:
        x, ok = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(x, ast.Expr) and isinstance(x.value, (ast.Yield, ast.YieldFrom)):
            if not ok:
                return False
            st.extend((y, ok) for y in ast.iter_child_nodes(x.value))
            continue
        if isinstance(x, (ast.Try, ast.With)):
            ok = False
        st.extend((y, ok) for y in ast.iter_child_nodes(x))
    return True


def is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False
