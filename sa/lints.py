"""Whole-package rules over the resolved syntax tree: which exceptions the package raises, and which it swallows."""
import ast

BROAD = {"Exception", "BaseException"}


def _functions(m):
    """(qualified name, node) of every function of a module"""
    def walk(node, qual):
        for s in ast.iter_child_nodes(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield qual + s.name, s
                yield from walk(s, qual + s.name + ".")
            elif isinstance(s, ast.ClassDef):
                yield from walk(s, qual + s.name + ".")
            elif not isinstance(s, ast.expr):
                yield from walk(s, qual)

    yield "<module>", m.tree
    yield from walk(m.tree, "")


def _own(fn):
    """nodes of a function, without those of the functions it holds"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def _class_of(prog, m, node):
    """name of the exception class an expression denotes, or None when it is not a class of the program"""
    if isinstance(node, ast.Call):
        node = node.func
    if isinstance(node, ast.Name):
        r = prog.resolve(m, node.id)
        if r and r[0] == "class":
            return r[1].name
        if r is None:
            return node.id
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        r = prog.resolve(m, node.value.id)
        if r and r[0] == "module":
            q = prog.resolve(prog.modules[r[1]], node.attr)
            if q and q[0] == "class":
                return q[1].name
    return None


def raised_exceptions(prog):
    """every raise statement of the package raises one of its exceptions, NotImplementedError, or what was caught"""
    sites, bad = 0, []
    for name in prog.estrade_modules:
        m = prog.modules[name]
        for q, fn in _functions(m):
            for n in _own(fn):
                if not isinstance(n, ast.Raise):
                    continue
                sites += 1
                if n.exc is None:
                    continue
                c = _class_of(prog, m, n.exc)
                if c is None:
                    continue            # a value: some variable or the result of a helper, decided by the other properties
                if c == "NotImplementedError" or prog.is_sub(c, "EstradeException"):
                    continue
                if c in prog.classes or c in BUILTINS:
                    bad.append(("%s:%d %s" % (m.rel, n.lineno, q),
                                "raises %s, which is neither an exception of the package nor NotImplementedError" % c))
    return sites, bad


def swallowed_exceptions(prog):
    """no handler catches everything and goes on"""
    sites, bad = 0, []
    for name in prog.estrade_modules:
        m = prog.modules[name]
        for q, fn in _functions(m):
            for n in _own(fn):
                if not isinstance(n, ast.ExceptHandler):
                    continue
                sites += 1
                types = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
                names = [None if t is None else _class_of(prog, m, t) for t in types]
                broad = n.type is None or any(x in BROAD or x == "EstradeException" for x in names)
                if broad and not any(isinstance(x, ast.Raise) for s in n.body for x in ast.walk(s)):
                    bad.append(("%s:%d %s" % (m.rel, n.lineno, q), "catches %s and goes on" % (
                        "everything" if n.type is None else ", ".join(str(x) for x in names))))
    return sites, bad


def exception_hierarchy(prog):
    """every exception class of the package is an EstradeException, which is an Exception"""
    sites, bad = 0, []
    for c in prog.classes.values():
        if not c.is_exc or c.module.name not in prog.estrade_modules:
            continue
        sites += 1
        root = "Exception" if c.name == "EstradeException" else "EstradeException"
        if not prog.is_sub(c.name, root):
            bad.append(("%s:%d %s" % (c.module.rel, c.node.lineno, c.name), "is not a subclass of %s" % root))
    return sites, bad


BUILTINS = {
    "Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError",
    "AssertionError", "LookupError", "ArithmeticError", "ZeroDivisionError", "OSError", "StopIteration", "SystemExit",
    "KeyboardInterrupt", "NameError", "OverflowError", "PermissionError", "FileNotFoundError", "FileExistsError",
    "ImportError", "EOFError", "TimeoutError", "ConnectionError", "UnicodeError", "RecursionError", "MemoryError"}

RULES = {"C34": [raised_exceptions, swallowed_exceptions, exception_hierarchy]}
