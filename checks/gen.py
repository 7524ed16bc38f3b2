"""Helpers for the bounded checks: structural comparison and random CWL values."""
from __future__ import annotations

import copy
import re

from schema_salad.runtime import LoadingOptions, Saveable

UUID = re.compile(r"_:[0-9a-f-]{36}")


def norm(v, depth=0):
    """Structure of a value, comparable with ==."""
    if depth > 40:
        return "..."
    if isinstance(v, str) and "_:" in v:
        return UUID.sub("_:", str(v))
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (type(v).__name__, v) if isinstance(v, (bool, float)) else v
    if isinstance(v, Saveable):
        return (type(v).__name__,) + tuple((a, norm(getattr(v, a), depth + 1)) for a in sorted(vars(v)) if a not in ("loadingOptions",))
    if isinstance(v, LoadingOptions):
        return "LoadingOptions"
    if isinstance(v, dict) or hasattr(v, "items") and hasattr(v, "keys"):
        return ("dict", tuple((norm(k), norm(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list,)) or type(v).__name__ == "CommentedSeq":
        return ("list", tuple(norm(x, depth + 1) for x in v))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(norm(x, depth + 1) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    if isinstance(v, type):
        return v.__name__
    if hasattr(v, "__dict__"):
        return (type(v).__name__,) + tuple((a, norm(x, depth + 1)) for a, x in sorted(vars(v).items()))
    return repr(v)


def outcome(fn, *args, **kw):
    """('ret', structure) or ('raise', exception class)."""
    try:
        return ("ret", norm(fn(*args, **kw)))
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt) or type(e).__name__ == "CaseTimeout":
            raise
        return ("raise", type(e))


def agree(real, spec, what=""):
    """None, or a message: outcomes agree up to subclasses of the exception."""
    if real[0] == spec[0] == "raise":
        if issubclass(real[1], spec[1]):
            return None
        return f"{what} raises {real[1].__name__}, expected {spec[1].__name__}"
    if real == spec:
        return None
    if real[0] == spec[0] == "ret":
        a, b = diff(real[1], spec[1])
        return f"{what} gives {repr(a)[:500]}, expected {repr(b)[:500]}"
    return f"{what} gives {_s(real)}, expected {_s(spec)}"


def diff(a, b):
    """The innermost pair of different parts."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y) if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[:1] == y[:1] or isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], tuple) else (a, b) if len(repr(a)) < 300 else (x, y)
    return a, b


def _s(o):
    if o[0] == "raise":
        return o[1].__name__
    return repr(o[1])[:600]


def same(fn, spec, args, what=""):
    a, b = copy.deepcopy(args), copy.deepcopy(args)
    before = norm(list(a))
    r = agree(outcome(fn, *a), outcome(spec, *b), what)
    if r is None and norm(list(a)) != before and norm(list(b)) == before:
        return f"{what} changes its arguments"
    return r


# ------------------------------------------------------------------ CWL types
LO = LoadingOptions()
LO.__deepcopy__ = lambda memo: LO

PRIMS = ["null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any", "stdin", "stdout"]


def typ(rng, depth=3, prims=PRIMS, names=("a", "b", "c")):
    """A type description (plain data, see `build`)."""
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice(prims if rng.random() < .5 else ["null", "int", "string", "File", "Any"])
    if r < 0.55:
        return ("array", typ(rng, depth - 1, prims, names))
    if r < 0.75:
        n = rng.choice([0, 1, 1, 2, 2, 3])
        return ("record", rng.choice(["r1", "r2", "f#r1", "f#step/r2"]),
                [(rng.choice(["", "x/", "f#y/", "w#z/r/"]) + rng.choice(names), typ(rng, depth - 1, prims, names)) for _ in range(n)]
                if rng.random() < .95 else None)
    if r < 0.93:
        return ("union", [typ(rng, depth - 1, prims, names) for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 4]))])
    return ("enum", rng.choice(["e1", "f#e2"]), [rng.choice("pqs") for _ in range(rng.choice([1, 2]))])


def mutate(rng, t, prims=PRIMS):
    """A type close to t."""
    if rng.random() < .25 or isinstance(t, str):
        k = rng.random()
        if k < .25:
            return ("array", t)
        if k < .45:
            return ("union", ["null", t])
        if k < .6:
            return ("union", [t, typ(rng, 1)])
        if k < .8:
            return typ(rng, 1, prims)
        return t
    if t[0] == "array":
        return ("array", mutate(rng, t[1])) if rng.random() < .8 else t[1]
    if t[0] == "union":
        u = list(t[1])
        k = rng.random()
        if u and k < .4:
            i = rng.randrange(len(u))
            u[i] = mutate(rng, u[i])
        elif u and k < .6:
            u.pop(rng.randrange(len(u)))
        elif u and k < .8:
            rng.shuffle(u)
        else:
            u.append(typ(rng, 1))
        return ("union", u)
    if t[0] == "record" and t[2]:
        fs = list(t[2])
        k = rng.random()
        i = rng.randrange(len(fs))
        if k < .5:
            fs[i] = (fs[i][0], mutate(rng, fs[i][1]))
        elif k < .7:
            fs.pop(i)
        elif k < .85:
            fs.append((rng.choice(["a", "b", "c", "d"]), typ(rng, 1)))
        else:
            rng.shuffle(fs)
        return ("record", t[1], fs)
    return t


def build(t, cls):
    """CWL objects of a type description; cls: dict of array/record/enum/field classes."""
    if isinstance(t, str):
        return t
    if t[0] == "array":
        return cls["array"](items=build(t[1], cls), type_="array", loadingOptions=LO)
    if t[0] == "union":
        return [build(x, cls) for x in t[1]]
    if t[0] == "enum":
        return cls["enum"](name=t[1], symbols=list(t[2]), type_="enum", loadingOptions=LO)
    fs = None if t[2] is None else [cls["field"](name=n, type_=build(x, cls), loadingOptions=LO) for n, x in t[2]]
    try:
        return cls["record"](name=t[1], fields=fs, type_="record", loadingOptions=LO)
    except TypeError:
        return cls["record"](fields=fs, type_="record", loadingOptions=LO)


def classes(mod, role):
    """role: Input / CommandInput / CommandOutput / (Output)."""
    def g(*ns):
        for n in ns:
            if hasattr(mod, n):
                return getattr(mod, n)
        raise AttributeError(ns)
    return {
        "array": g(role + "ArraySchema", "CommandInputArraySchema"),
        "record": g(role + "RecordSchema"),
        "enum": g(role + "EnumSchema", "InputEnumSchema"),
        "field": g(role + "RecordField"),
    }
