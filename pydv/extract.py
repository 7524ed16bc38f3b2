"""Mechanical extraction: the AST of the function that really runs.

A function object (resolved through the imported module, exactly as Python
resolves it) is located in its source file by name and line, and the parsed
FunctionDef is what gets verified.  Nothing is rewritten here; the symbolic
executor documents what it drops (logging, prints to stderr, type casts and
annotations, docstrings).
"""
import ast
import functools
import hashlib
import inspect

_files = {}


class Fn:
    def __init__(self, node, func, path, lines):
        self.node, self.func, self.path, self.lines = node, func, path, lines
        self.glb = func.__globals__
        self.name = func.__qualname__
        self.key = f"{func.__module__}.{func.__qualname__}"

    @property
    def is_gen(self):
        return inspect.isgeneratorfunction(self.func)

    def sha(self):
        return hashlib.sha256(ast.dump(self.node).encode()).hexdigest()[:16]

    def loc(self):
        return f"{self.path}:{self.lines[0]}-{self.lines[1]}"


def _tree(path):
    if path not in _files:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src)
        table = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                first = n.lineno
                if not isinstance(n, ast.Lambda) and n.decorator_list:
                    first = min(d.lineno for d in n.decorator_list)
                table.setdefault((getattr(n, "name", "<lambda>"), first), n)
        _files[path] = table
    return _files[path]


@functools.lru_cache(maxsize=None)
def fn(func):
    f = inspect.unwrap(func)
    f = getattr(f, "__func__", f)
    code = f.__code__
    path = code.co_filename
    node = _tree(path).get((code.co_name, code.co_firstlineno))
    if node is None:
        raise LookupError(f"no source for {func!r}")
    return Fn(node, f, path, (node.lineno, node.end_lineno))


@functools.lru_cache(maxsize=None)
def compiled_source(o):
    """A function of a mypyc-compiled module: the Python function it was compiled
    from (the .py file beside the extension), or None."""
    import os
    import sys
    import types

    m = sys.modules.get(getattr(o, "__module__", None) or "")
    f = getattr(m, "__file__", None)
    if not isinstance(o, types.BuiltinFunctionType) or not f or not f.endswith(".so"):
        return None
    path = os.path.join(os.path.dirname(f), os.path.basename(f).split(".")[0] + ".py")
    if not os.path.exists(path):
        return None
    node = next((n for n in ast.parse(open(path).read()).body if isinstance(n, ast.FunctionDef) and n.name == o.__name__), None)
    if node is None or node.decorator_list:
        return None
    ns = {}
    exec(compile(ast.Module([node], []), path, "exec", flags=__import__("__future__").annotations.compiler_flag), dict(vars(m)), ns)
    g = ns[o.__name__]
    return types.FunctionType(g.__code__, vars(m), g.__name__, g.__defaults__, g.__closure__)


def resolve(qual):
    """'pkg.mod:Class.method' -> the attribute (functions unwrapped)."""
    import importlib

    mod, _, path = qual.partition(":")
    o = importlib.import_module(mod)
    for p in path.split("."):
        o = getattr(o, p)
    return o


def literals(func_or_node):
    """All str/int literals in a function (used to seed input generators)."""
    node = func_or_node if isinstance(func_or_node, ast.AST) else fn(func_or_node).node
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, int)) and not isinstance(n.value, bool):
            if isinstance(n.value, str) and len(n.value) > 60:
                continue
            out.add(n.value)
    return sorted(out, key=repr)
