"""Syntax rewritten before the analysis into simpler syntax with the same meaning: `match` into a chain of tests,
`with suppress(...)` and `with closing(...)` into `try`, data classes and named tuples into plain classes."""
import ast

SUBJECT = "@subject%d"
FACTORY = "@factory"


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def both(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return None
    return xs[0] if len(xs) == 1 else ast.BoolOp(ast.And(), xs)


def call(f, *a):
    return ast.Call(name(f), list(a), [])


def bind(target, value):
    """a true expression that binds the name"""
    return ast.List([ast.NamedExpr(name(target, True), value)], ast.Load())


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.suppress = set()
        self.closing = set()
        self.contextlib = set()
        self.dataclass = set()
        self.field = set()
        self.dataclasses = set()
        self.namedtuple = set()
        self.typing = set()

    def visit_ImportFrom(self, s):
        if s.module == "contextlib":
            self.suppress |= {a.asname or a.name for a in s.names if a.name == "suppress"}
            self.closing |= {a.asname or a.name for a in s.names if a.name == "closing"}
        if s.module == "dataclasses":
            self.dataclass |= {a.asname or a.name for a in s.names if a.name == "dataclass"}
            self.field |= {a.asname or a.name for a in s.names if a.name == "field"}
        if s.module == "typing":
            self.namedtuple |= {a.asname or a.name for a in s.names if a.name == "NamedTuple"}
        if s.module == "collections":
            self.namedtuple |= {a.asname or a.name for a in s.names if a.name == "namedtuple"}
        return s

    def visit_Import(self, s):
        self.contextlib |= {a.asname or a.name for a in s.names if a.name == "contextlib"}
        self.dataclasses |= {a.asname or a.name for a in s.names if a.name == "dataclasses"}
        self.typing |= {a.asname or a.name for a in s.names if a.name in ("typing", "collections")}
        return s

    def names(self, e, own, modules, attr):
        return (isinstance(e, ast.Name) and e.id in own) or (
            isinstance(e, ast.Attribute) and e.attr in attr and isinstance(e.value, ast.Name) and e.value.id in modules)

    # ------------------------------------------------------------------ data classes and named tuples
    def visit_ClassDef(self, s):
        self.generic_visit(s)
        for d in s.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if self.names(f, self.dataclass, self.dataclasses, ("dataclass",)):
                self.data_class(s, d)
                break
        if len(s.bases) == 1 and self.names(s.bases[0], self.namedtuple, self.typing, ("NamedTuple",)):
            fs = [(x.target.id, x.value) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            s.body = [x for x in s.body if not isinstance(x, ast.AnnAssign)] or [ast.Pass()]
            self.tuple_class(s, fs)
        return s

    def visit_Assign(self, s):
        self.generic_visit(s)
        v = s.value
        if not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, ast.Call) and len(v.args) == 2
                and all(k.arg == "defaults" for k in v.keywords)
                and self.names(v.func, self.namedtuple, self.typing, ("NamedTuple", "namedtuple"))):
            return s
        a = v.args[1]
        try:
            fs = ast.literal_eval(a)
            fs = fs.replace(",", " ").split() if isinstance(fs, str) else list(fs)
        except ValueError:
            if not isinstance(a, (ast.List, ast.Tuple)):
                return s
            fs = [x.elts[0].value if isinstance(x, ast.Tuple) and isinstance(x.elts[0], ast.Constant) else None for x in a.elts]
        if not all(isinstance(f, str) for f in fs):
            return s
        ds = v.keywords[0].value.elts if v.keywords and isinstance(v.keywords[0].value, (ast.List, ast.Tuple)) else []
        if v.keywords and not ds:
            return s
        c = ast.ClassDef(name=s.targets[0].id, bases=[], keywords=[], body=[], decorator_list=[], type_params=[])
        self.tuple_class(c, list(zip(fs, [None] * (len(fs) - len(ds)) + list(ds))))
        ast.copy_location(c, s)
        self.place(c, s)
        return c

    def init(self, fs, post):
        """constructor that keeps its parameters; (name, default, factory) each"""
        args = [ast.arg("self")] + [ast.arg(n) for n, _, _ in fs]
        defaults = [ast.Constant(FACTORY) if f is not None else d for _, d, f in fs if d is not None or f is not None]
        body = []
        for n, _, f in fs:
            v = name(n)
            if f is not None:
                v = ast.IfExp(ast.Compare(name(n), [ast.Is()], [ast.Constant(FACTORY)]), ast.Call(f, [], []), v)
            body.append(ast.Assign([ast.Attribute(name("self"), n, ast.Store())], v))
        if post:
            body.append(ast.Expr(ast.Call(ast.Attribute(name("self"), "__post_init__", ast.Load()), [], [])))
        return self.function("__init__", args, body or [ast.Pass()], defaults)

    def function(self, n, args, body, defaults=()):
        return ast.FunctionDef(name=n, args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=list(defaults)),
                               body=body, decorator_list=[], type_params=[])

    def method(self, text):
        return ast.parse(text).body[0]

    def own(self, s, f):
        if not any(isinstance(x, ast.FunctionDef) and x.name == f.name for x in s.body):
            s.body.append(f)
            f.lineno = None
            for x in ast.walk(f):
                if "lineno" in getattr(x, "_attributes", ()):
                    x.lineno = None
            self.place(f, s)

    def tuple_class(self, s, fs):
        s.bases = []
        if not all(isinstance(f, str) and f.isidentifier() for f, _ in fs):
            return
        all_ = "(" + "".join("self.%s, " % f for f, _ in fs) + ")"
        self.own(s, self.init([(f, d, None) for f, d in fs], False))
        self.own(s, self.method("def __iter__(self):\n    return iter(%s)" % all_))
        self.own(s, self.method("def __getitem__(self, index):\n    return %s[index]" % all_))
        self.own(s, self.method("def __len__(self):\n    return %d" % len(fs)))
        self.own(s, self.method("def __eq__(self, other):\n    return tuple(self) == tuple(other)"))
        self.own(s, self.method("def _asdict(self):\n    return {%s}" % ", ".join("%r: self.%s" % (f, f) for f, _ in fs)))
        self.own(s, self.method("def _replace(self, **changed):\n    return %s(%s)" % (
            s.name, ", ".join("%s=changed.get(%r, self.%s)" % (f, f, f) for f, _ in fs))))

    def data_class(self, s, d):
        opts = {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) else {}
        on = lambda k, default: opts[k].value if isinstance(opts.get(k), ast.Constant) else default
        if s.bases or set(opts) - {"eq", "frozen", "init", "repr", "slots", "unsafe_hash", "kw_only"} or not on("init", True):
            return
        fs, keep = [], []
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "ClassVar" not in ast.dump(x.annotation):
                v, default, factory, init = x.value, x.value, None, True
                if isinstance(v, ast.Call) and self.names(v.func, self.field, self.dataclasses, ("field",)):
                    kw = {k.arg: k.value for k in v.keywords}
                    if set(kw) - {"default", "default_factory", "repr", "compare", "hash"} or (
                            isinstance(kw.get("compare"), ast.Constant) and kw["compare"].value is not True):
                        return
                    default, factory = kw.get("default"), kw.get("default_factory")
                fs.append((x.target.id, default, factory))
                if default is not None:
                    keep.append(ast.copy_location(ast.Assign([name(x.target.id, True)], default), x))
            else:
                keep.append(x)
        s.decorator_list = [x for x in s.decorator_list if x is not d]
        for x in keep:
            self.place(x, s)
        s.body = keep or [ast.copy_location(ast.Pass(), s)]
        self.own(s, self.init(fs, any(isinstance(x, ast.FunctionDef) and x.name == "__post_init__" for x in s.body)))
        if on("eq", True):
            mine, theirs = ["(%s)" % "".join("%s.%s, " % (o, f) for f, _, _ in fs) for o in ("self", "other")]
            self.own(s, self.method("def __eq__(self, other):\n    return isinstance(other, %s) and %s == %s" % (s.name, mine, theirs)))

    # ------------------------------------------------------------------ with suppress
    def suppressed(self, e):
        if not isinstance(e, ast.Call) or e.keywords:
            return False
        f = e.func
        return (isinstance(f, ast.Name) and f.id in self.suppress) or (
            isinstance(f, ast.Attribute) and f.attr == "suppress" and isinstance(f.value, ast.Name) and f.value.id in self.contextlib)

    def visit_With(self, s):
        self.generic_visit(s)
        body = s.body
        for i in range(len(s.items) - 1, -1, -1):
            it = s.items[i]
            if not self.suppressed(it.context_expr) or it.optional_vars is not None:
                c = self.closed(it)
                if c is not None:
                    body = c[:1] + [ast.Try(body, [], [], c[1:])]
                    continue
                if i == 0 and body is s.body:
                    return s
                body = [ast.With([it], body, None)]
                continue
            h = ast.ExceptHandler(ast.Tuple(it.context_expr.args, ast.Load()), None, [ast.Pass()])
            body = [ast.Try(body, [h], [], [])]
        for b in body:
            self.place(b, s)
        return body

    def closed(self, it):
        """what opens and closes the value of `with closing(value) as target`"""
        e, t = it.context_expr, it.optional_vars
        if not (isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords
                and self.names(e.func, self.closing, self.contextlib, ("closing",))):
            return None
        if t is None or isinstance(t, ast.Name):
            self.n += 1
            n = t.id if t is not None else SUBJECT % self.n
            return [ast.Assign([name(n, True)], e.args[0]),
                    ast.Expr(ast.Call(ast.Attribute(name(n), "close", ast.Load()), [], []))]
        return None

    # ------------------------------------------------------------------ match
    def visit_Match(self, s):
        self.generic_visit(s)
        self.n += 1
        sub = SUBJECT % self.n
        first = ast.Assign([name(sub, True)], s.subject)
        orelse = []
        for c in reversed(s.cases):
            t = both([self.pattern(c.pattern, name(sub)), c.guard])
            orelse = [ast.If(t if t is not None else ast.Constant(True), c.body, orelse)]
        for b in [first] + orelse:
            self.place(b, s)
        return [first] + orelse

    def pattern(self, p, e):
        """expression that tells whether the value of e matches (None: always)"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(e, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            inner = self.pattern(p.pattern, e) if p.pattern is not None else None
            return both([inner, bind(p.name, e) if p.name else None])
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(q, e) for q in p.patterns]
            return None if any(t is None for t in ts) else ast.BoolOp(ast.Or(), ts)
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            ts = [call("isinstance", e, ast.Tuple([name("list"), name("tuple")], ast.Load())),
                  ast.Compare(call("len", e), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            for i, q in enumerate(p.patterns):
                ts.append(self.pattern(q, ast.Subscript(e, ast.Constant(i), ast.Load())))
            return both(ts)
        if isinstance(p, ast.MatchClass) and not p.patterns:
            ts = [call("isinstance", e, p.cls)]
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                ts.append(self.pattern(q, ast.Attribute(e, a, ast.Load())))
            return both(ts)
        return call("@unsupported pattern")

    # ------------------------------------------------------------------
    def place(self, node, at):
        for x in ast.walk(node):
            if "lineno" in getattr(x, "_attributes", ()) and getattr(x, "lineno", None) is None:
                ast.copy_location(x, at)


def desugar(tree):
    if not any(isinstance(x, (ast.Match, ast.With, ast.ImportFrom, ast.Import)) for x in ast.walk(tree)):
        return tree
    d = Desugar()
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            d.visit_Import(x)
        elif isinstance(x, ast.ImportFrom):
            d.visit_ImportFrom(x)
    return d.visit(tree)
