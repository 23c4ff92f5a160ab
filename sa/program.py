"""Resolved program: modules, scopes, classes (MRO), enums, exceptions, field types."""
import ast
import re
import os

from . import terms as tm
from .desugar import desugar
from .terms import ANY, NUM, INT, FLOAT, BOOL, STR, DT, DATE, TIME

REPO = os.environ.get("ESTRADE_REPO", "/repo")


class Broken(Exception):
    """The analysis cannot find what it is anchored on."""


SPECIAL = {"deque", "defaultdict", "Counter", "ChainMap", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet", "SimpleQueue", "Queue"}
PLAIN_DECORATORS = {"property", "setter", "staticmethod", "classmethod", "abstractmethod", "abstractproperty", "overload",
                    "final", "override", "options", "no_type_check", "wraps", "typechecked"}


PLAIN_CLASS_DECORATORS = {"final", "runtime_checkable", "unique", "dataclass"}


class Func:
    __slots__ = ("name", "node", "module", "cls", "kind", "qual", "parent", "memo", "raw", "defs")

    def __init__(self, name, node, module, cls=None, kind="func", parent=None):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.parent = parent
        self.qual = (cls.name + "." if cls else "") + name
        self.memo = None
        self.defs = None
        for d in getattr(node, "decorator_list", ()):
            x = d.func if isinstance(d, ast.Call) else d
            dn = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?"
            if dn in ("lru_cache", "cache", "cached_property"):
                self.memo = dn
            elif dn not in PLAIN_DECORATORS:
                self.memo = "?"

    def where(self):
        return "%s:%d %s" % (self.module.rel, self.node.lineno, self.qual)


class Prop:
    __slots__ = ("get", "set")

    def __init__(self):
        self.get = self.set = None


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        self.mro = []
        self.foreign = False
        self.odd = None
        self.methods = {}
        self.props = {}
        self.consts = {}
        self.members = {}   # enum members: name -> value node
        self.is_enum = False
        self.is_exc = False
        self.fields = {}
        self.backing = set()
        self.known = set()


class Module:
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.odd, self.strange, self.fed = set(), set(), set()
        self.scope = {}     # name -> ("class", Class) | ("func", Func) | ("import", mod, attr) | ("const", node)


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception", "AssertionError": "Exception",
    "OSError": "Exception", "FileExistsError": "OSError", "FileNotFoundError": "OSError", "OverflowError": "ArithmeticError",
    "PermissionError": "OSError", "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "TimeoutError": "OSError",
    "UnicodeError": "ValueError", "ImportError": "Exception", "MemoryError": "Exception", "BufferError": "Exception",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "GeneratorExit": "BaseException",
    "RecursionError": "RuntimeError", "UnboundLocalError": "Exception", "NameError": "Exception",
}

# Public state of the library's objects (documented attributes); private fields are inferred from the source.
SCHEMA = {
    "Tick": dict(meta=("dict", ANY, ANY)),
    "MetaMixin": dict(meta=("dict", ANY, ANY)),
    "TransactionMixin": dict(status=("enum", "TransactionStatus")),
    "TimeframeMixin": dict(unit=("enum", "Unit"), unit_quantity=INT),
    "Epic": dict(open_time=TIME, close_time=TIME, trade_days=("list", INT), holidays=("list", DATE),
                 trade_provider=("obj", "BaseTradeProvider"), last_tick=("obj", "Tick"),
                 frame_sets=("dict", STR, ("obj", "FrameSet")), strategies=("dict", STR, ("obj", "BaseStrategy")),
                 market_open=BOOL),
    "BaseStrategy": dict(epics=("dict", STR, ("obj", "Epic")), paused_until=("opt", DT), stopped=BOOL,
                         trades=("list", ("obj", "Trade"))),
    "Trade": dict(epic=("obj", "Epic"), strategy=("opt", ("obj", "BaseStrategy")),
                  direction=("enum", "TradeDirection"), open_quantity=NUM, closes=("list", ("obj", "TradeClose")),
                  open_value=NUM, current_close_value=NUM, max_result=NUM, min_result=NUM),
    "TradeClose": dict(trade=("obj", "Trade"), close_value=NUM, quantity=NUM),
    "BaseTradeProvider": dict(trades=("list", ("obj", "Trade")), threads=("list", ("obj", "Thread"))),
    "BaseTickProvider": dict(epics=("dict", STR, ("obj", "Epic"))),
    "Frame": dict(parent_frameset=("obj", "FrameSet"), first_tick=("obj", "Tick"), last_tick=("obj", "Tick"),
                  high_tick=("obj", "Tick"), low_tick=("obj", "Tick"), period_start=DT, period_end=("opt", DT),
                  previous_frame=("opt", ("obj", "Frame")), next_frame=("opt", ("obj", "Frame")), nb_ticks=INT,
                  indicators=("dict", STR, ("opt", ("obj", "BaseIndicatorValue")))),
    "FrameSet": dict(epic=("opt", ("obj", "Epic")), frames=("list", ("obj", "Frame")),
                     indicators=("dict", STR, ("obj", "BaseIndicator")), max_frames_in_memory=INT),
    "BaseIndicatorValue": dict(indicator=("obj", "BaseIndicator"), frame=("obj", "Frame"), first_tick=("obj", "Tick"),
                               last_tick=("obj", "Tick"), high_tick=("obj", "Tick"), low_tick=("obj", "Tick")),
    "BaseIndicator": dict(value_class=ANY, market_open_only=BOOL, frame_set=("opt", ("obj", "FrameSet"))),
    "RSIValue": dict(last_changes=("list", NUM), rsi_periods=INT, value=("opt", NUM), indicator=("obj", "RSI")),
    "RSI": dict(periods=INT, rsi_periods=("opt", INT)),
    "SimpleMovingAverageValue": dict(last_closes=("list", NUM), indicator=("obj", "SimpleMovingAverage")),
    "SimpleMovingAverage": dict(max_periods=INT),
    "ReportingCSV": dict(target_folder=STR),
}

# registries keyed by the ref of the object they hold (what add_frame_set, add_strategy, add_indicator establish)
REF_KEYED = {("Epic", "frame_sets"), ("Epic", "strategies"), ("FrameSet", "indicators"), ("BaseTickProvider", "epics")}


def is_typechecking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING")


class Program:
    def __init__(self, repo=None, extra=()):
        self.repo = repo or REPO
        self.modules = {}
        self.spelled = None
        self.special = {}
        self.classes = {}
        root = os.path.join(self.repo, "estrade")
        if not os.path.isdir(root):
            raise Broken("no package estrade under %s" % self.repo)
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == "__init__":
                        parts = parts[:-1]
                    self.load(".".join(parts), p, rel)
        self.estrade_modules = list(self.modules)
        for name, path in (("sa.prelude", os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.py")),) + tuple(extra):
            self.load(name, path, os.path.basename(path))
        self.link()
        tm._HOOK["field"] = self.field_type
        tm._HOOK["related"] = self.related
        tm._HOOK["members"] = lambda e: list(self.classes[e].members) if e in self.classes else None

    # ----------------------------------------------------------------- loading
    def load(self, name, path, rel):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise Broken("cannot parse %s: %s" % (rel, e))
        m = Module(name, path, rel, desugar(tree))
        tree = m.tree
        self.modules[name] = m
        self.scan(m, tree.body)

    def scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.scope[s.name] = ("func", Func(s.name, s, m))
            elif isinstance(s, ast.ClassDef):
                c = Class(s.name, s, m)
                m.scope[s.name] = ("class", c)
                if s.name in self.classes and self.classes[s.name].module.name != m.name:
                    c.name = m.name + "." + s.name
                self.classes[c.name] = c
                self.scan_class(c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.scope[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.scope[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.scope[t.id] = ("const", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.scope[s.target.id] = ("const", s.value)
            elif isinstance(s, ast.If):
                self.scan(m, s.body)
                if not is_typechecking(s.test):
                    self.scan(m, s.orelse)
            elif isinstance(s, ast.Try):
                self.scan(m, s.body)
                for h in s.handlers:
                    for n in ast.walk(h):
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) or isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.strange.add(n.id if isinstance(n, ast.Name) else n.name)
            elif not isinstance(s, (ast.Pass, ast.AnnAssign, ast.Global, ast.Assert)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.odd_statement(m, s)
            if isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets):
                self.odd_statement(m, s)

    def odd_statement(self, m, s):
        """code run at import that may change what a name of the module stands for or holds"""
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                m.strange.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(n, ast.Call):
                xs = [n.func] + n.args if isinstance(n, ast.Call) else [n]
                for x in xs:
                    deep = isinstance(x, (ast.Attribute, ast.Subscript))
                    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
                        x = x.func if isinstance(x, ast.Call) else x.value
                    if isinstance(x, ast.Name):
                        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr")):
                            m.fed.add(x.id)
                        else:
                            m.strange.add(x.id)

    def scan_class(self, c):
        for d in c.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if (x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?") not in PLAIN_CLASS_DECORATORS:
                c.odd = "a decorator"
        for k in c.node.keywords:
            if k.arg != "metaclass" or not (isinstance(k.value, (ast.Name, ast.Attribute)) and ast.unparse(k.value).split(".")[-1] in ("ABCMeta", "type")):
                c.odd = "a class keyword"
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name in (
                    "__new__", "__init_subclass__", "__getattribute__", "__getattr__", "__setattr__", "__delattr__", "__set_name__", "__get__", "__set__"):
                c.odd = s.name
            elif isinstance(s, (ast.Assign, ast.AugAssign)):
                if not all(isinstance(t, ast.Name) for t in getattr(s, "targets", [None])):
                    c.odd = "an assignment in its body"
            elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.AnnAssign, ast.Pass, ast.ClassDef)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                c.odd = "a statement in its body"
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
                    if dn == "property" or dn == "cached_property":
                        kind = "get"
                    elif dn == "setter":
                        kind = "set"
                    elif dn == "staticmethod":
                        kind = "static"
                    elif dn == "classmethod":
                        kind = "classm"
                f = Func(s.name, s, c.module, c, kind)
                if kind == "get":
                    c.props.setdefault(s.name, Prop()).get = f
                elif kind == "set":
                    c.props.setdefault(s.name, Prop()).set = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    c.consts[s.target.id] = s.value

    def resolve(self, m, name, seen=()):
        """-> ("class", Class) | ("func", Func) | ("const", node, Module) | ("ext", dotted) | None"""
        e = m.scope.get(name)
        if e is None:
            return None
        if e[0] in ("class", "func"):
            return e
        if e[0] == "const":
            return ("const", e[1], m)
        if e[0] == "mod":
            if e[1] in self.modules:
                return ("module", e[1])
            return ("ext", e[1])
        base, attr = e[1], e[2]
        if (base, attr) in seen:
            return None
        if base + "." + attr in self.modules:
            return ("module", base + "." + attr)
        if base in self.modules:
            return self.resolve(self.modules[base], attr, seen + ((base, attr),))
        return ("ext", base + "." + attr)

    def mark_odd(self):
        self.odd_classes = {c.name for c in self.classes.values() if any(x.odd for x in c.mro)}
        for m in self.modules.values():
            for x in m.strange | m.fed:
                r = self.resolve(m, x)
                if r is None or r[0] in ("ext", "module", "func"):
                    if x in m.strange and (r is None or r[0] != "module"):
                        m.odd.add(x)
                elif r[0] == "class":
                    if x in m.strange:
                        self.odd_classes |= {c.name for c in self.classes.values() if r[1] in c.mro}
                elif "getLogger" not in ast.dump(r[1]):
                    r[2].odd.add(next((k for k, v in r[2].scope.items() if v[0] == "const" and v[1] is r[1]), x))
                    m.odd.add(x)

    def link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                r = None
                if isinstance(b, ast.Name):
                    r = self.resolve(c.module, b.id)
                    nm = b.id
                else:
                    nm = b.attr if isinstance(b, ast.Attribute) else "?"
                if r and r[0] == "class":
                    c.bases.append(r[1])
                elif nm in ("Enum", "IntEnum"):
                    c.is_enum = True
                elif nm in BUILTIN_EXC:
                    c.is_exc = True
                    c.fields["#excbase"] = nm
                elif nm not in ("object", "Generic", "ABC", "Protocol"):
                    c.foreign = True
        for c in self.classes.values():
            c.mro = self.c3(c)
        for c in self.classes.values():
            if any(b.is_enum for b in c.mro):
                c.is_enum = True
            if any(b.is_exc for b in c.mro):
                c.is_exc = True
            if c.is_enum:
                c.members = {k: v for k, v in c.consts.items() if not k.startswith("_")}
        self.mark_odd()
        for c in self.classes.values():
            self.infer_fields(c)

    def c3(self, c):
        seqs = [self.c3(b) for b in c.bases] + [list(c.bases)]
        out = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Broken("no MRO for %s" % c.name)
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    # ----------------------------------------------------------------- types
    def ann_type(self, node, m):
        if node is None:
            return ANY
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_type(ast.parse(node.value, mode="eval").body, m)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.Subscript):
            h = node.value
            hn = h.id if isinstance(h, ast.Name) else h.attr if isinstance(h, ast.Attribute) else ""
            sl = node.slice
            if hn == "Optional":
                t = self.ann_type(sl, m)
                return tm.opt(t)
            if hn in ("List", "list", "Sequence"):
                return ("list", self.ann_type(sl, m))
            if hn in ("Dict", "dict", "Mapping"):
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                    return ("dict", self.ann_type(sl.elts[0], m), self.ann_type(sl.elts[1], m))
            if hn == "Union" and isinstance(sl, ast.Tuple):
                ts = {self.ann_type(e, m) for e in sl.elts}
                if ts <= {INT, FLOAT, NUM}:
                    return NUM
            return ANY
        nm = node.id if isinstance(node, ast.Name) else node.attr if isinstance(node, ast.Attribute) else ""
        simple = {"float": FLOAT, "int": INT, "bool": BOOL, "str": STR, "Arrow": DT, "Num": NUM, "Int": INT,
                  "Date": DATE, "Time": TIME, "date": DATE, "time": TIME, "datetime_time": TIME, "Any": ANY,
                  "Str": STR, "Bool": BOOL, "PyDatetime": ("pydt",)}
        c = None
        r = self.resolve(m, nm) if nm else None
        if r and r[0] == "class":
            c = r[1]
        elif nm in simple:
            return simple[nm]
        elif nm in self.classes:
            c = self.classes[nm]
        if c is not None:
            return ("enum", c.name) if c.is_enum else ("obj", c.name)
        return ANY

    def infer_fields(self, c):
        for f in list(c.methods.values()) + [p.set for p in c.props.values() if p.set]:
            params = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
            for s in ast.walk(f.node):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                    t = self.ann_type(s.annotation, c.module)
                    if t != ANY:
                        c.fields.setdefault(s.target.attr, t)
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and params.get(s.value.id) is not None:
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and f.kind != "set":
                            ty = self.ann_type(params[s.value.id], c.module)
                            if ty != ANY:
                                c.fields.setdefault(t.attr, ty)
        for p in c.props.values():
            if p.get:
                body = [x for x in p.get.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if body and isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Attribute) \
                        and isinstance(body[-1].value.value, ast.Name) and body[-1].value.value.id == "self":
                    fld = body[-1].value.attr
                    if fld not in c.props:
                        if p.set is not None:
                            c.backing.add(fld)
                        ty = self.ann_type(p.get.node.returns, c.module)
                        if ty != ANY:
                            c.fields[fld] = ty

    def field_type(self, cls, f):
        c = self.classes.get(cls)
        if c is None:
            return ANY
        for b in c.mro:
            t = SCHEMA.get(b.name, {}).get(f)
            if t is not None:
                return t
        for b in c.mro:
            t = b.fields.get(f)
            if t is not None:
                return t
        return ANY

    def special_field(self, cls, f):
        """is the field given a collection other than a list or a dictionary"""
        c = self.classes.get(cls)
        if c is None:
            return False
        k = (cls, f)
        if k not in self.special:
            self.special[k] = any(
                (x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else "") in SPECIAL
                for b in c.mro for s in ast.walk(b.node)
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None
                and any(isinstance(t, ast.Attribute) and t.attr == f for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
                for x in ast.walk(s.value) if isinstance(x, ast.Call))
        return self.special[k]

    def deque_field(self, cls, f):
        """(True, bound) when every value the class gives the field is a deque of constant bound (or without)"""
        c = self.classes.get(cls)
        if c is None:
            return (False, None)
        bounds = set()
        for b in c.mro:
            for s in ast.walk(b.node):
                if not isinstance(s, (ast.Assign, ast.AnnAssign)) or s.value is None:
                    continue
                if not any(isinstance(t, ast.Attribute) and t.attr == f for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                    continue
                v = s.value
                if not (isinstance(v, ast.Call) and ast.unparse(v.func) in ("deque", "collections.deque") and len(v.args) <= 1):
                    return (False, None)
                ks = {k.arg: k.value for k in v.keywords}
                if not ks:
                    bounds.add(None)
                elif set(ks) == {"maxlen"} and isinstance(ks["maxlen"], ast.Constant):
                    bounds.add(ks["maxlen"].value)
                else:
                    return (False, None)
        return (len(bounds) == 1, *bounds) if len(bounds) == 1 else (False, None)

    def known_field(self, cls, f):
        """part of the documented state of the class, or what one of its properties stores"""
        c = self.classes.get(cls)
        if c is None:
            return True
        if f in c.known:
            return True
        for b in c.mro:
            if f in SCHEMA.get(b.name, {}) or f in b.backing:
                c.known.add(f)
                return True
        return False

    def nowhere(self, cls, name):
        """no construct of the program can give an instance of the class such an attribute: it is not defined
        by the class or its relatives, stored on any object, nor spelled in any string or class body"""
        c = self.classes.get(cls)
        if c is None or self.known_field(cls, name) or name.startswith("__"):
            return False
        if self.spelled is None:
            self.spelled = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        self.spelled.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200:
                        self.spelled.update(re.findall(r"\w+", n.value))
                    elif isinstance(n, ast.keyword) and n.arg:
                        self.spelled.add(n.arg)
                    elif isinstance(n, ast.ClassDef):
                        for x in ast.walk(n):
                            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                    for y in ast.walk(t):
                                        if isinstance(y, ast.Name):
                                            self.spelled.add(y.id)
                    if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        self.spelled.add("*")
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (n.func.id in ("setattr", "vars") or n.func.id == "type" and len(n.args) == 3):
                        self.spelled.add("*")
                    if isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__"):
                        self.spelled.add("*")
        if "*" in self.spelled or name in self.spelled or any(x.foreign or x.is_enum or x.is_exc for x in c.mro):
            return False
        for x in self.classes.values():
            if (x in c.mro or c in x.mro) and (self.find_method(x.name, name) or self.find_prop(x.name, name)
                                               or self.find_const(x.name, name)):
                return False
        return True

    def related(self, a, b):
        ca, cb = self.classes.get(a), self.classes.get(b)
        if ca is None or cb is None:
            return True
        return ca in cb.mro or cb in ca.mro

    def find_method(self, cls, name, after=None):
        c = self.classes.get(cls)
        if c is None:
            return None
        mro = c.mro
        if after is not None:
            i = [x.name for x in mro].index(after)
            mro = mro[i + 1:]
        for b in mro:
            if name in b.methods:
                return b.methods[name]
        return None

    def find_prop(self, cls, name, after=None):
        c = self.classes.get(cls)
        if c is None:
            return None
        mro = c.mro
        if after is not None:
            i = [x.name for x in mro].index(after)
            mro = mro[i + 1:]
        for b in mro:
            if name in b.props:
                return b.props[name]
            if name in b.methods or name in b.consts:
                return None
        return None

    def find_const(self, cls, name):
        c = self.classes.get(cls)
        if c is None:
            return None
        for b in c.mro:
            if name in b.consts:
                return b.consts[name], b.module
        return None

    def is_sub(self, a, b):
        """a, b names (classes or builtin exceptions)"""
        while True:
            if a == b:
                return True
            c = self.classes.get(a)
            if c is not None:
                if any(x.name == b for x in c.mro):
                    return True
                exb = None
                for x in c.mro:
                    if "#excbase" in x.fields:
                        exb = x.fields["#excbase"]
                if exb is None:
                    return False
                a = exb
                continue
            a = BUILTIN_EXC.get(a)
            if a is None:
                return False
