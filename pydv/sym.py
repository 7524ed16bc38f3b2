"""Symbolic execution of Python functions over the heap model of logic.py.

A function is executed for arbitrary arguments.  Execution forks at branches
(infeasible sides are pruned with z3); every implicit exception (missing key,
index out of range, attribute of None, ...) is its own outcome.  A loop is
summarised exactly by a loop record: the state its body modifies becomes a
function of the iteration number, defined by the body (see `Loop`); nothing is
unrolled unless the iterable is a literal.  Calls to functions with a contract
use the contract only; other functions of the repository are inlined.
"""
from __future__ import annotations

import ast
import builtins
import collections
import collections.abc
import copy
import functools
import inspect
import itertools
import logging
import re
import sys
import types
import typing

from .logic import *  # noqa: F401,F403
from .logic import z3, FRESH, UNOLD, OPAQUE_RESULT, QTAB, NONE, TRUE, FALSE, T, Fa
from . import extract


class Unsupported(Exception):
    pass


class K:
    """A concrete Python object (module, class, function, regex, ...)."""

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return f"K({self.obj!r})"


class Tup:
    def __init__(self, vals):
        self.vals = list(vals)


class BM:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Clo:
    def __init__(self, node, env, glb, name="<lambda>", fn=None):
        self.node, self.env, self.glb, self.name, self.fn = node, env, glb, name, fn
        self.late, self.shared = _late(node, fn)


def _late(node, fn):
    """variables of the enclosing function that a nested function sees change
    after its definition, and those it assigns itself"""
    shared = {n for b in ast.walk(node) if isinstance(b, ast.Nonlocal) for n in b.names}
    outer = getattr(fn, "node", None)
    if outer is None:
        return set(), shared
    a = node.args
    own = {p.arg for p in a.args + a.posonlyargs + a.kwonlyargs + [q for q in (a.vararg, a.kwarg) if q]}
    used = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} - own
    inside = {id(n) for n in ast.walk(node)}
    late = set()
    loops = [n for n in ast.walk(outer) if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]
    here = [{id(m) for m in ast.walk(n)} for n in loops]
    here = [h for h in here if id(node) in h]
    targets = {id(m) for n in loops if not isinstance(n, (ast.For, ast.While)) for g in n.generators for m in ast.walk(g.target)}
    for n in ast.walk(outer):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in inside and n.id in used:
            after = id(n) not in targets and (n.lineno, n.col_offset) > (node.lineno, node.col_offset)
            if after or any(id(n) in h for h in here):
                late.add(n.id)
    return late, shared


class It:
    def __init__(self, n, elem, guard=None):
        self.n, self.elem, self.guard = n, elem, guard


class Exc:
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, list(args), cause

    def __repr__(self):
        return f"Exc({self.cls.__name__})"


class Raised:
    def __init__(self, exc):
        self.exc = exc


class Undef:
    """A local whose value is not tracked (reading it is out of fragment)."""


class Maybe:
    """A local bound to `v` when `c` holds, unbound otherwise (merged states)."""

    def __init__(self, v, c):
        self.v, self.c = v, c


class Mapped:
    """dict.items()/keys()/values() view."""

    def __init__(self, m, what):
        self.m, self.what = m, what


UNDEF = Undef()


class St:
    __slots__ = ("pc", "env", "heap", "glb", "fn", "yld")

    def __init__(self, pc, env, heap, glb, fn, yld=None):
        self.pc, self.env, self.heap, self.glb, self.fn, self.yld = pc, env, heap, glb, fn, yld

    def fork(self):
        return St(self.pc, dict(self.env), dict(self.heap), self.glb, self.fn, self.yld)

    def assume(self, f):
        if is_true(f):
            return self
        n = self.fork()
        n.pc = self.pc + (f,)
        return n


class Loop:
    """Summary of one loop.

    state:  name -> function decl  c(outer.., j): value at the start of iteration j
    init:   name -> value at iteration 0
    paths:  normal paths of the body, (pc terms, {name: next value})
    exits:  (kind, pc terms) of the other outcomes
    flat:   names whose value is init ++ parts (list accumulators)
    """

    def __init__(self, **kw):
        self.__dict__.update(kw)


class QRec:
    def __init__(self, formals, n, j, elem=None, paths=None, loop=None, key=None):
        self.formals, self.n, self.j, self.elem, self.paths, self.loop, self.key = formals, n, j, elem, paths, loop, key


LISTLIKE = (list, tuple, collections.deque)
HEAP_SORT = {"lst": Q, "dct": M}


def heap_sort(c):
    return HEAP_SORT.get(c, V)


_tagids = {}


def tagid(cls):
    return _tagids.setdefault(cls, len(_tagids) + 1)


_constrefs = {}


def constref(obj):
    for o, r in _constrefs.values():
        if o is obj:
            return V.R(r)
    r = z3.IntVal(-(10 ** 6) - len(_constrefs))
    _constrefs[id(obj)] = (obj, r)
    return V.R(r)


def constobj(r):
    for o, rr in _constrefs.values():
        if rr.eq(r):
            return o
    return None


DROPPED = "logging calls (except items and attributes among their arguments), print to stderr, typing.cast, annotations and docstrings"
_PKIND = ((str, "S"), (bytes, "Y"), (bool, "B"), (int, "I"), (float, "F"), (type(None), "Nn"))

STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
LIST_METHODS = {n for n in dir(list) if not n.startswith("__")}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("__")}
SET_METHODS = {n for n in dir(set) if not n.startswith("__")}


@functools.lru_cache(maxsize=None)
def attrs_of(cls):
    """Instance attributes assigned in __init__ (of any class of the MRO)."""
    out = set(getattr(cls, "_fields", ())) if issubclass(cls, tuple) else set()
    for c in cls.__mro__:
        init = c.__dict__.get("__init__")
        if init is None or not hasattr(init, "__code__"):
            continue
        try:
            f = extract.fn(init)
        except (LookupError, OSError, TypeError):
            continue
        me = f.node.args.args[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                out.add(n.attr)
    import dataclasses

    if dataclasses.is_dataclass(cls):
        out |= {f.name for f in dataclasses.fields(cls)}
    return frozenset(out)


def _hashable(o):
    try:
        hash(o)
    except TypeError:
        return False
    return True


def _positional(qn, args, kw):
    """the same call with its keyword arguments by position, as far as they go"""
    if not kw:
        return args, kw
    try:
        parts = qn.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = sys.modules.get(".".join(parts[:i]))
            if mod is not None:
                break
        o = mod
        for a in parts[i:]:
            o = getattr(o, a)
        ps = [p.name for p in inspect.signature(o).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
    except (TypeError, ValueError, AttributeError):
        return args, kw
    args, kw = list(args), dict(kw)
    while len(args) < len(ps) and ps[len(args)] in kw:
        args.append(kw.pop(ps[len(args)]))
    return args, kw


def _literal(v):
    if not z3.is_expr(v):
        return False
    try:
        lit(v)
        return True
    except KeyError:
        return False


class _Lines:
    pass


LINES = _Lines()


class Exec:
    def __init__(self, universe=(), contracts=None, pure=(), ghost=(), inline=(), fuel=6, merge=False, opaque=(), timeout=250):
        self.universe = tuple(dict.fromkeys((list, dict, tuple, set) + tuple(universe)))
        self.contracts = dict(contracts or {})
        self.pure = {x.split("=")[0]: (x.split("=") + [None])[1] for x in pure}  # name[=S|B]
        self.opaque = set(opaque)  # classes constructed as opaque pure terms
        self.ghost = set(ghost)  # (module name, global name) kept in the heap
        self.inline_extra = tuple(inline)
        self.fuel = fuel
        self.merge = merge
        self.lazy = {}
        self.callinv = {}
        self.virtual = {}
        self.timeout = timeout
        self.n = itertools.count(1)
        self.bound = []  # enclosing loop indices
        self.axioms = [({"rq"}, self.RQ(qnil) == qnil), ({"rm"}, self.RM(mnil) == mnil)]
        self.loops = []
        self.fam = {}  # (comp, decl name) -> (formals, term)
        self.stack = []
        self.covered = {}  # extracted functions
        self.assumed = set()
        self.obls = []  # (name, pc, goal) raised by callee requires
        self.heap0 = {}
        self.cache = {}
        self.queries = 0
        self.solver_time = 0.0
        self.steps = 0
        self.max_steps = 60000
        self.stamp = 0

    # ------------------------------------------------------------ symbols
    def name(self, base):
        return f"{base}!{next(self.n)}"

    def const(self, base, sort=V):
        """A fresh symbol, a function of the enclosing loop indices."""
        nm = self.name(base)
        if not self.bound:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[Int] * len(self.bound), sort)(*self.bound)

    def arg(self, base, cls=None):
        """A fresh argument: any value, or an object of one of the classes."""
        return z3.Const(self.name("old" if False else base), V)

    def alloc(self, cls):
        nm = self.name("ref")
        r = z3.Const(nm, Int)
        FRESH[nm] = (next(_sites), cls)
        return r

    def comp(self, st, c):
        if c not in st.heap:
            if c not in self.heap0:
                srt = heap_sort(c)
                self.heap0[c] = z3.Const(f"H0:{c}", srt if c.startswith("g:") else z3.ArraySort(Int, srt))
            st.heap[c] = self.heap0[c]
        return st.heap[c]

    def sel(self, st, c, r):
        a = self.comp(st, c)
        return self.sel_(a, c, r)

    def sel_(self, a, c, r):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            e = Eq(a.arg(1), r)
            if is_true(e):
                return a.arg(2)
            if not is_false(e):
                return If(e, a.arg(2), self.sel_(a.arg(0), c, r))
            a = a.arg(0)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            return If(a.arg(0), self.sel_(a.arg(1), c, r), self.sel_(a.arg(2), c, r))
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            return If(r.arg(0), self.sel_(a, c, r.arg(1)), self.sel_(a, c, r.arg(2)))
        site = fresh_site(r)
        if site and (c, r.decl().name()) in self.fam:
            formals, term = self.fam[(c, r.decl().name())]
            return subst(term, list(zip(formals, r.children())))
        return z3.Select(a, r)

    def put(self, st, c, r, v):
        st.heap[c] = sto(self.comp(st, c), r, v)

    # --------------------------------------------------------- feasibility
    def check(self, fs, timeout=None, mbqi=False):
        """sat / unsat / unknown for a list of facts (with background axioms)."""
        import time

        s = z3.Solver()
        # a resource limit, not a time limit: the outcome does not depend on load
        ms = timeout or self.timeout
        s.set("rlimit", 3000 * ms)
        s.set("timeout", 20 * ms + 5000)
        s.set("auto_config", False)
        s.set("smt.mbqi", mbqi)
        fs = list(fs)
        ax = self.relevant_axioms(fs)
        allf = fs + ax
        allf += axioms_for(allf)
        allf += ref_facts(allf)
        s.add(*allf)
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        self.last = s
        return r

    def relevant_axioms(self, fs):
        if not self.axioms:
            return []
        syms = symbols(fs)
        out, used, grew = [], set(), True
        while grew:
            grew = False
            for i, (keys, f) in enumerate(self.axioms):
                if i not in used and keys & syms:
                    used.add(i)
                    out.append(f)
                    syms |= symbols([f])
                    grew = True
        return out

    def feasible(self, pc, *extra):
        fs = [f for f in itertools.chain(pc, extra) if not is_true(f)]
        if any(is_false(f) for f in fs):
            return False
        ids = {f.get_id() for f in fs}
        for f in fs:
            if z3.is_not(f) and f.arg(0).get_id() in ids:
                return False
        if self.merge and len(fs) > 1:
            # an unconstrained condition: both sides are possible
            v = _free_var(fs[-1])
            if v is not None and not any(_mentions(f, v) for f in fs[:-1]):
                return True
        key = frozenset(ids)
        if key not in self.cache:
            self.cache[key] = (self.check(fs) != z3.unsat, fs)
        return self.cache[key][0]

    def entails(self, st, f):
        if is_true(f):
            return True
        return not self.feasible(st.pc, Not(f))

    def split(self, st, c):
        """[(state, bool)] of the feasible sides of condition c."""
        if is_true(c):
            return [(st, True)]
        if is_false(c):
            return [(st, False)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("path explosion")
        out = []
        if self.feasible(st.pc, c):
            out.append((st.assume(c), True))
        if not out:
            return [(st.assume(Not(c)), False)]
        if self.feasible(st.pc, Not(c)):
            out.append((st.assume(Not(c)), False))
        return out

    # --------------------------------------------------------------- types
    def tagof(self, r):
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            return If(r.arg(0), self.tagof(r.arg(1)), self.tagof(r.arg(2)))
        f = fresh_site(r)
        if f:
            return z3.IntVal(tagid(f[1]))
        if z3.is_int_value(r):
            o = constobj(r)
            if o is not None:
                return z3.IntVal(tagid(type(o)))
        return tag(r)

    def reftag(self, r, pred):
        """Bool term: the class of object r satisfies the Python predicate."""
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            return If(r.arg(0), self.reftag(r.arg(1), pred), self.reftag(r.arg(2), pred))
        f = fresh_site(r)
        if f:
            return z3.BoolVal(bool(pred(f[1])))
        if z3.is_int_value(r):
            o = constobj(r)
            if o is not None:
                return z3.BoolVal(bool(pred(type(o))))
        hits = [c for c in self.universe if pred(c)]
        if len(hits) == len(self.universe):
            return T
        return Or(*[tag(r) == tagid(c) for c in hits])

    def inst(self, v, cls):
        """Bool term: isinstance(v, cls)."""
        if isinstance(v, K):
            try:
                return z3.BoolVal(isinstance(v.obj, cls))
            except TypeError:
                raise Unsupported(f"isinstance {cls}")
        if isinstance(v, Tup):
            return z3.BoolVal(issubclass(tuple, cls))
        if isinstance(v, (Clo, BM)):
            return z3.BoolVal(issubclass(types.FunctionType, cls))
        if isinstance(v, Exc):
            return z3.BoolVal(issubclass(v.cls, cls))
        if isinstance(v, (It, Mapped)):
            raise Unsupported("isinstance of an iterator")
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return If(v.arg(0), self.inst(v.arg(1), cls), self.inst(v.arg(2), cls))
        k = kind(v)
        out = []
        for pt, kk in _PKIND:
            if issubclass(pt, cls):
                out.append(isk(kk, v))
        if k in (None, "R"):
            c = self.reftag(acc("R", v), lambda c: issubclass(c, cls))
            out.append(And(isk("R", v), c))
        return Or(*out)

    def is_list(self, v):
        return self.inst_pred(v, lambda c: issubclass(c, LISTLIKE))

    def is_dict(self, v):
        return self.inst_pred(v, lambda c: issubclass(c, dict))

    def is_set(self, v):
        return self.inst_pred(v, lambda c: issubclass(c, (set, frozenset)))

    def inst_pred(self, v, pred):
        if not z3.is_expr(v):
            return Fa
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return If(v.arg(0), self.inst_pred(v.arg(1), pred), self.inst_pred(v.arg(2), pred))
        k = kind(v)
        if k not in (None, "R"):
            return Fa
        return And(isk("R", v), self.reftag(acc("R", v), pred))

    def typefact(self, v):
        """An object of the initial heap is of a class of the universe."""
        return Implies(isk("R", v), Or(*[tag(acc("R", v)) == tagid(c) for c in self.universe]))

    # ------------------------------------------------------------- values
    def toV(self, v, st):
        if z3.is_expr(v):
            return v
        if isinstance(v, K):
            o = v.obj
            if o is None:
                return NONE
            if isinstance(o, bool):
                return mkB(o)
            if isinstance(o, int):
                return mkI(o)
            if isinstance(o, str) and type(o) is str:
                return mkS(o)
            if isinstance(o, bytes):
                return mkY(o.decode("latin-1"))
            return constref(o)
        if isinstance(v, Tup):
            r = self.alloc(tuple)
            self.put(st, "lst", r, qlist([self.toV(x, st) for x in v.vals]))
            return mkR(r)
        if isinstance(v, (It, Mapped)):
            raise Unsupported("iterator stored")
        if isinstance(v, Exc):
            return mkR(z3.Const(f"exc:{v.cls.__name__}", Int))  # an exception kept as a value: only its class is tracked
        raise Unsupported(f"value {type(v).__name__} stored")

    def pyval(self, o):
        """Embed a concrete Python object (constants of the module)."""
        if o is None or isinstance(o, (bool, int, str, bytes)) and type(o) in (bool, int, str, bytes):
            return self.toV(K(o), None)
        if isinstance(o, float):
            return V.F(z3.Int(f"float:{o!r}"))
        return K(o)

    def truth(self, v, st):
        if isinstance(v, K):
            return z3.BoolVal(bool(v.obj))
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.vals))
        if isinstance(v, (Clo, BM, Exc)):
            return T
        if isinstance(v, Mapped):
            return self.truth(v.m, st)
        if not z3.is_expr(v):
            raise Unsupported("truth of iterator")
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return If(v.arg(0), self.truth(v.arg(1), st), self.truth(v.arg(2), st))
        k = kind(v)
        if k == "Nn":
            return Fa
        if k == "B":
            return acc("B", v)
        if k == "I":
            return Not(Eq(acc("I", v), z3.IntVal(0)))
        if k in ("S", "Y"):
            return Not(Eq(acc(k, v), z3.StringVal("")))
        r = acc("R", v)
        li, di = self.is_list(v), Or(self.is_dict(v), self.is_set(v))
        rt = And(Or(Not(li), qlen(self.sel(st, "lst", r)) > 0), Or(Not(di), qlen(mkeys(self.sel(st, "dct", r))) > 0))
        if k == "R":
            return rt
        return And(Not(isk("Nn", v)),
                   Implies(isk("B", v), acc("B", v)),
                   Implies(isk("I", v), Not(Eq(acc("I", v), z3.IntVal(0)))),
                   Implies(isk("S", v), Not(Eq(acc("S", v), z3.StringVal("")))),
                   Implies(isk("Y", v), Not(Eq(acc("Y", v), z3.StringVal("")))),
                   Implies(isk("F", v), z3.Function("ftruth", Int, Bool)(acc("F", v))),
                   Implies(isk("R", v), rt))

    PYEQ = z3.Function("pyeq", V, V, Bool)

    def eq(self, a, b, st):
        """Bool term for a == b."""
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.vals) != len(b.vals):
                return Fa
            return And(*[self.eq(x, y, st) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, K) and isinstance(b, K):
            return z3.BoolVal(bool(a.obj == b.obj))
        if isinstance(a, Mapped) and isinstance(b, Mapped) and a.what == b.what == "keys":
            ma, mb = (self.reifyM(self.sel(st, "dct", acc("R", x.m)), st) for x in (a, b))
            return Or(Eq(ma, mb), z3.Function("samekeys", M, M, Bool)(ma, mb))
        if isinstance(a, (Clo, BM, It, Mapped, Exc)) or isinstance(b, (Clo, BM, It, Mapped, Exc)):
            raise Unsupported("== of special values")
        if isinstance(a, Tup) or isinstance(b, Tup):
            t, o = (a, b) if isinstance(a, Tup) else (b, a)
            if isinstance(o, K):
                return Fa
            q = self.sel(st, "lst", acc("R", o))
            return And(self.inst(o, tuple), Eq(qlen(q), z3.IntVal(len(t.vals))),
                       *[self.eq(x, qat(q, i), st) for i, x in enumerate(t.vals)])
        a, b = self.toV(a, st), self.toV(b, st)
        if a.eq(b):
            return T
        for x, y in ((a, b), (b, a)):
            if z3.is_app_of(x, z3.Z3_OP_ITE) and (kind(x) is None or kind(x) == "R"):
                return If(x.arg(0), self.eq(x.arg(1), y, st), self.eq(x.arg(2), y, st))
        ka, kb = kind(a), kind(b)
        num = {"I": lambda t: acc("I", t), "B": lambda t: If(acc("B", t), z3.IntVal(1), z3.IntVal(0))}
        if ka in num and kb in num and ka != kb:
            return Eq(num[ka](a), num[kb](b))
        if ka and kb and ka != kb:
            return Fa
        if ka not in (None, "R") or kb not in (None, "R"):
            return Eq(a, b)
        # literal list/dict against anything
        for x, y in ((a, b), (b, a)):
            if kind(x) == "R":
                f = fresh_site(acc("R", x))
                if f and f[1] in (list, tuple):
                    q = self.sel(st, "lst", acc("R", x))
                    vs = litq(q)
                    if vs is not None:
                        q2 = self.sel(st, "lst", acc("R", y))
                        return And(self.inst(y, f[1]), Eq(qlen(q2), z3.IntVal(len(vs))),
                                   *[self.eq(v, qat(q2, i), st) for i, v in enumerate(vs)])
                if f and f[1] is dict and self.sel(st, "dct", acc("R", x)).eq(mnil):
                    return And(self.is_dict(y), Eq(qlen(mkeys(self.sel(st, "dct", acc("R", y)))), z3.IntVal(0)))
        ra, rb = self.reify(a, st), self.reify(b, st)
        if ra.eq(rb):
            return T
        pe = Or(self.PYEQ(ra, rb), self.PYEQ(rb, ra)) if ra.get_id() < rb.get_id() else Or(self.PYEQ(rb, ra), self.PYEQ(ra, rb))
        return Or(Eq(a, b), And(isk("R", a), isk("R", b), pe))

    # --------------------------------------------------- structural values
    def reify(self, v, st, seen=()):
        if z3.is_expr(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            return self._memoised(self._reify, v, st, seen)
        return self._reify(v, st, seen)

    _rmemo = None

    def _memoised(self, f, t, st, seen):
        """shared subterms are visited once (per outermost call)"""
        top = self._rmemo is None
        if top:
            self._rmemo = {}
        try:
            k = (f.__name__, t.get_id(), seen, id(st))
            if k not in self._rmemo:
                self._rmemo[k] = (f(t, st, seen), t)
            return self._rmemo[k][0]
        finally:
            if top:
                self._rmemo = None

    def _reify(self, v, st, seen=()):
        """A term that determines the structure of v (allocated parts become
        constructor terms; objects of the initial heap stand for themselves)."""
        if isinstance(v, Exc):
            return NONE
        if isinstance(v, (Tup,)):
            return V.R(z3.Function("snap:tuple", Q, Int)(qlist([self.reify(x, st, seen) for x in v.vals])))
        v = self.toV(v, st)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return If(v.arg(0), self.reify(v.arg(1), st, seen), self.reify(v.arg(2), st, seen))
        k = kind(v)
        if k is None:
            r = acc("R", v)
            if fresh_site(r) or not is_old(r):
                return v
            return v
        if k != "R":
            return v
        r = acc("R", v)
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            return If(r.arg(0), self.reify(mkR(r.arg(1)), st, seen), self.reify(mkR(r.arg(2)), st, seen))
        f = fresh_site(r)
        if not f:
            return v
        if r.get_id() in seen:
            raise Unsupported("cyclic structure")
        seen = seen + (r.get_id(),)
        cls = f[1]
        if issubclass(cls, LISTLIKE):
            q = self.reifyQ(self.sel(st, "lst", r), st, seen)
            return V.R(z3.Function(f"snap:{cls.__name__}", Q, Int)(q))
        if issubclass(cls, (dict, set, frozenset)):
            m = self.reifyM(self.sel(st, "dct", r), st, seen)
            return V.R(z3.Function(f"snap:{cls.__name__}", M, Int)(m))
        names = sorted(attrs_of(cls))
        vals = [self.reify(self.sel(st, "a:" + n, r), st, seen) for n in names]
        return V.R(z3.Function(f"snap:{cls.__module__}.{cls.__qualname__}", *[V] * len(vals), Int)(*vals))

    RQ = z3.Function("rq", Q, Q)
    RM = z3.Function("rm", M, M)

    def reifyQ(self, q, st, seen=()):
        return self._memoised(self._reifyQ, q, st, seen)

    def _reifyQ(self, q, st, seen=()):
        if q.eq(qnil):
            return q
        if z3.is_app_of(q, z3.Z3_OP_ITE):
            return If(q.arg(0), self.reifyQ(q.arg(1), st, seen), self.reifyQ(q.arg(2), st, seen))
        n = q.decl().name()
        if n == "qapp":
            return qapp(self.reifyQ(q.arg(0), st, seen), self.reify(q.arg(1), st, seen))
        if n == "qcat":
            return qcat(self.reifyQ(q.arg(0), st, seen), self.reifyQ(q.arg(1), st, seen))
        if n == "qupd":
            return qupd(self.reifyQ(q.arg(0), st, seen), q.arg(1), self.reify(q.arg(2), st, seen))
        if n == "qsub":
            return qsub(self.reifyQ(q.arg(0), st, seen), q.arg(1), q.arg(2))
        if n in QTAB or n in UNOLD:
            return self.RQ(q)
        return q

    def reifyM(self, m, st, seen=()):
        return self._memoised(self._reifyM, m, st, seen)

    def _reifyM(self, m, st, seen=()):
        if m.eq(mnil):
            return m
        if z3.is_app_of(m, z3.Z3_OP_ITE):
            return If(m.arg(0), self.reifyM(m.arg(1), st, seen), self.reifyM(m.arg(2), st, seen))
        n = m.decl().name()
        if n == "mput":
            return mput(self.reifyM(m.arg(0), st, seen), self.reify(m.arg(1), st, seen), self.reify(m.arg(2), st, seen))
        if n == "mdel":
            return mdel(self.reifyM(m.arg(0), st, seen), m.arg(1))
        if n == "mupd":
            return mupd(self.reifyM(m.arg(0), st, seen), self.reifyM(m.arg(1), st, seen))
        if n in UNOLD:
            return self.RM(m)
        return m

    # ------------------------------------------------------------- helpers
    def exc(self, st, cls, *args):
        return [(st, Raised(Exc(cls, args)))]

    def bind(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Raised):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def guard(self, st, cond, ok, bad):
        """fork on cond: ok(st) / raise bad."""
        out = []
        for s, b in self.split(st, cond):
            if b:
                out.extend(ok(s))
            else:
                out.extend(self.exc(s, bad))
        return out

    def cases(self, st, alts, otherwise):
        """fork over alternatives [(cond, fn)], then otherwise(st)."""
        out, rest = [], [st]
        for cond, f in alts:
            nxt = []
            for s in rest:
                for s2, b in self.split(s, cond):
                    if b:
                        out.extend(f(s2))
                    else:
                        nxt.append(s2)
            rest = nxt
        for s in rest:
            out.extend(otherwise(s))
        return out

    # ---------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', '?')}")
        return m(e, st)

    def evs(self, es, st):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
            out = nxt
        return out

    def ev_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(st, K(Ellipsis))]
        return [(st, self.pyval(e.value))]

    def lookup(self, name, st):
        if name in st.env:
            v = st.env[name]
            if v is UNDEF:
                raise Unsupported(f"untracked local {name}")
            return v
        g = st.glb
        gk = (g.get("__name__"), name)
        if gk in self.ghost:
            return self.comp(st, "g:" + ".".join(gk))
        if name in g:
            return self.pyval(g[name])
        if hasattr(builtins, name):
            return K(getattr(builtins, name))
        return None

    def ev_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is None:
            return self.exc(st, UnboundLocalError)
        if isinstance(v, Maybe):
            a, b = st.fork(), st.fork()
            a.pc, b.pc = a.pc + (v.c,), b.pc + (Not(v.c),)
            out = [(a, v.v)] if self.feasible(a.pc) else []
            if self.feasible(b.pc):
                return out + self.exc(b, UnboundLocalError)
            st.env[e.id] = v.v
            return [(st, v.v)]
        if z3.is_expr(v) and not z3.is_app_of(v, z3.Z3_OP_DT_CONSTRUCTOR) and not kind(v) and z3.is_app(v) and v.sort() == V:
            pass
        return [(st, v)]

    def ev_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.bind(self.ev_List(e, st), lambda s, v: [(s, v)])
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, Tup(vs))])

    def ev_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = [(st, qnil)]
            for x in e.elts:
                def step(s, q, x=x):
                    if isinstance(x, ast.Starred):
                        return self.bind(self.ev(x.value, s), lambda s2, v: self.bind(
                            self.toQ(s2, v), lambda s3, q2: [(s3, qcat(q, q2))]))
                    return self.bind(self.ev(x, s), lambda s2, v: [(s2, qapp(q, self.toV(v, s2)))])
                out = self.bind(out, step)
            return self.bind(out, lambda s, q: [(s, self.newlist(s, q))])
        return self.bind(self.evs(e.elts, st), lambda s, vs: self._list(s, vs))

    def _list(self, s, vs):
        s = s.fork()
        q = qlist([self.toV(v, s) for v in vs])
        return [(s, self.newlist(s, q))]

    def newlist(self, st, q, cls=list):
        r = self.alloc(cls)
        st.heap = dict(st.heap)
        self.put(st, "lst", r, q)
        return mkR(r)

    def newdict(self, st, m, cls=dict):
        r = self.alloc(cls)
        st.heap = dict(st.heap)
        self.put(st, "dct", r, m)
        return mkR(r)

    def ev_Set(self, e, st):
        def mk_(s, vs):
            s = s.fork()
            m = mnil
            for v in vs:
                m = mput(m, self.toV(v, s), NONE)
            return [(s, self.newdict(s, m, set))]
        return self.bind(self.evs(e.elts, st), mk_)

    def ev_Dict(self, e, st):
        out = [(st, mnil)]
        for k, v in zip(e.keys, e.values):
            def step(s, m, k=k, v=v):
                if k is None:
                    def upd(s2, d):
                        if isinstance(d, K) and isinstance(d.obj, dict):
                            mm = m
                            for kk, vv in d.obj.items():
                                mm = mput(mm, self.toV(K(kk), s2), self.toV(self.pyval(vv), s2))
                            return [(s2, mm)]
                        d = self.toV(d, s2)
                        return self.guard(s2, self.is_dict(d), lambda s3: [(s3, mupd(m, self.sel(s3, "dct", acc("R", d))))], TypeError)
                    return self.bind(self.ev(v, s), upd)

                def put_(s2, kv):
                    s2 = s2.fork()
                    return [(s2, mput(m, self.toV(kv[0], s2), self.toV(kv[1], s2)))]
                return self.bind(self.evs([k, v], s), put_)
            out = self.bind(out, step)

        def fin(s, m):
            s = s.fork()
            return [(s, self.newdict(s, m))]
        return self.bind(out, fin)

    def ev_BoolOp(self, e, st):
        def go(i, s):
            rs = self.ev(e.values[i], s)
            if i == len(e.values) - 1:
                return rs

            def nxt(s2, v):
                out = []
                for s3, b in self.split(s2, self.truth(v, s2)):
                    if b == isinstance(e.op, ast.And):
                        out.extend(go(i + 1, s3))
                    else:
                        out.append((s3, v))
                return out
            return self.bind(rs, nxt)
        return go(0, st)

    def ev_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, mkB(Not(self.truth(v, s))))]
            if isinstance(e.op, ast.USub) and kind(v) == "I":
                t = acc("I", v)
                return [(s, mkI(z3.IntVal(-t.as_long()) if z3.is_int_value(t) else -t))]
            raise Unsupported("unary operator")
        return self.bind(self.ev(e.operand, st), f)

    def ev_IfExp(self, e, st):
        def f(s, v):
            out = []
            for s2, b in self.split(s, self.truth(v, s)):
                out.extend(self.ev(e.body if b else e.orelse, s2))
            return out
        return self.bind(self.ev(e.test, st), f)

    def ev_NamedExpr(self, e, st):
        def f(s, v):
            s = s.fork()
            s.env[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st), f)

    def ev_Lambda(self, e, st):
        return [(st, Clo(e, dict(st.env), st.glb, fn=st.fn))]

    def ev_JoinedStr(self, e, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]

        def f(s, vs):
            t = None
            for p, v in zip(e.values, vs):
                if isinstance(p, ast.FormattedValue):
                    if p.format_spec is not None or p.conversion not in (-1, 115):
                        x = z3.Function(f"fmt:{p.conversion}:{ast.dump(p.format_spec) if p.format_spec else ''}", V, Str)(self.reify(v, s))
                    else:
                        x = self.strof(v, s)
                else:
                    x = acc("S", v)
                t = x if t is None else self.sconcat(t, x)
            return [(s, mkS(t if t is not None else ""))]
        return self.bind(self.evs(parts, st), f)

    def sconcat(self, a, b):
        if z3.is_string_value(a) and z3.is_string_value(b):
            return strval(pystr_of(a) + pystr_of(b))
        if z3.is_string_value(a) and pystr_of(a) == "":
            return b
        if z3.is_string_value(b) and pystr_of(b) == "":
            return a
        return z3.Concat(a, b)

    STROF = z3.Function("str", V, Str)

    def strof(self, v, st):
        if isinstance(v, K):
            if isinstance(v.obj, type):
                return strval(str(v.obj))
            return self.STROF(self.toV(v, st))
        if isinstance(v, Exc):
            if len(v.args) == 1 and not isinstance(v.args[0], (K,)):
                return self.strof(v.args[0], st)
            return self.STROF(self.reify(Tup([a for a in v.args]), st))
        if z3.is_expr(v):
            if kind(v) == "S":
                return acc("S", v)
            try:
                return strval(str(lit(v)))
            except KeyError:
                pass
            if kind(v) is None:
                return If(isk("S", v), acc("S", v), self.STROF(v))
        return self.STROF(self.reify(v, st))

    # ---- operators
    def ev_BinOp(self, e, st):
        return self.bind(self.evs([e.left, e.right], st), lambda s, vs: self.binop(type(e.op).__name__, vs[0], vs[1], s))

    def binop(self, op, a, b, st):
        if isinstance(a, K) and isinstance(b, K):
            if op == "BitOr":
                return [(st, K(a.obj | b.obj))]
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
            return [(st, Tup(a.vals + b.vals))]
        if op == "Mod" and z3.is_expr(a) and kind(a) == "S":
            f = z3.Function("strmod", Str, V, Str)
            if z3.is_string_value(acc("S", a)):
                parts = pystr_of(acc("S", a)).split("%s")
                if "%" not in "".join(parts):
                    vs = b.vals if isinstance(b, Tup) else [b]
                    if len(vs) == len(parts) - 1:
                        # a symbolic right operand could be a tuple: only text is known to be one argument
                        sure = isinstance(b, Tup) or (z3.is_expr(b) and kind(b) is not None and kind(b) != "R")
                        t = strval(parts[0])
                        for x, rest in zip(vs, parts[1:]):
                            t = self.sconcat(self.sconcat(t, self.strof(x, st)), strval(rest))
                        if sure:
                            return [(st, mkS(t))]
                        if z3.is_expr(b):
                            return [(st, mkS(If(isk("S", b), t, f(acc("S", a), b))))]
            return [(st, mkS(f(acc("S", a), self.reify(b, st))))]
        if op == "Div" and (isinstance(a, K) or isinstance(b, K)):
            raise Unsupported("path division")
        a, b = self.toV(a, st), self.toV(b, st)
        if op in ("Add", "Sub", "Mult", "FloorDiv", "Mod"):
            alts = []
            if op == "Add":
                alts.append((And(isk("S", a), isk("S", b)), lambda s: [(s, mkS(self.sconcat(acc("S", a), acc("S", b))))]))
                alts.append((And(isk("Y", a), isk("Y", b)), lambda s: [(s, mkY(self.sconcat(acc("Y", a), acc("Y", b))))]))

                def cat(s):
                    s = s.fork()
                    return [(s, self.newlist(s, qcat(self.sel(s, "lst", acc("R", a)), self.sel(s, "lst", acc("R", b)))))]
                alts.append((And(self.is_list(a), self.is_list(b)), cat))
            def arith(s):
                x, y = acc("I", a), acc("I", b)
                if op == "Add":
                    r = _addi(x, y)
                elif op == "Sub":
                    r = _addi(x, z3.IntVal(-y.as_long())) if z3.is_int_value(y) else x - y
                elif op == "Mult":
                    r = x * y
                else:
                    raise Unsupported(op)
                return [(s, mkI(r))]
            alts.append((And(isk("I", a), isk("I", b)), arith))
            return self.cases(st, alts, lambda s: self.exc(s, TypeError))
        if op == "BitOr":
            def join(s):
                s = s.fork()
                return [(s, self.newdict(s, mupd(self.sel(s, "dct", acc("R", a)), self.sel(s, "dct", acc("R", b)))))]

            def other(s):
                raise Unsupported("operator BitOr")
            return self.cases(st, [(And(self.is_dict(a), self.is_dict(b)), join)], other)
        if op in ("BitAnd", "Sub"):
            raise Unsupported(f"operator {op}")
        raise Unsupported(f"operator {op}")

    def ev_Compare(self, e, st):
        def go(i, left, s):
            def f(s2, right):
                rs = self.compare(type(e.ops[i]).__name__, left, right, s2)
                if i == len(e.ops) - 1:
                    return rs

                def g(s3, v):
                    out = []
                    for s4, b in self.split(s3, acc("B", v)):
                        out.extend(go(i + 1, right, s4) if b else [(s4, FALSE)])
                    return out
                return self.bind(rs, g)
            return self.bind(self.ev(e.comparators[i], s), f)
        return self.bind(self.ev(e.left, st), lambda s, l: go(0, l, s))

    def compare(self, op, a, b, st):
        if op in ("Eq", "NotEq"):
            c = self.eq(a, b, st)
            return [(st, mkB(c if op == "Eq" else Not(c)))]
        if op in ("Is", "IsNot"):
            if isinstance(a, K) and isinstance(b, K):
                c = z3.BoolVal(a.obj is b.obj)
            elif isinstance(a, (Tup, Clo, BM, It, Exc)) or isinstance(b, (Tup, Clo, BM, It, Exc)):
                c = Fa
            else:
                c = Eq(self.toV(a, st), self.toV(b, st))
            return [(st, mkB(c if op == "Is" else Not(c)))]
        if op in ("In", "NotIn"):
            neg = op == "NotIn"
            return self.bind(self.contains(b, a, st), lambda s, c: [(s, mkB(Not(c) if neg else c))])
        if op in ("Lt", "LtE", "Gt", "GtE"):
            if op in ("Gt", "GtE"):
                a, b, op = b, a, {"Gt": "Lt", "GtE": "LtE"}[op]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, mkB(self.lexlt([self.toV(x, st) for x in a.vals], [self.toV(x, st) for x in b.vals], op == "LtE")))]
            a, b = self.toV(a, st), self.toV(b, st)
            alts = [
                (And(isk("I", a), isk("I", b)), lambda s: [(s, mkB(_cmpi(acc("I", a), acc("I", b), op)))]),
                (And(isk("S", a), isk("S", b)), lambda s: [(s, mkB((acc("S", a) < acc("S", b)) if op == "Lt" else (acc("S", a) <= acc("S", b))))]),
                (And(self.is_list(a), self.is_list(b)), lambda s: self.listcmp(s, a, b, op == "LtE")),
            ]
            return self.cases(st, alts, lambda s: self.exc(s, TypeError))
        raise Unsupported(op)

    def lexlt(self, xs, ys, orequal):
        """literal element lists (elements are integers)."""
        if not xs:
            return T if ys else z3.BoolVal(orequal)
        if not ys:
            return Fa
        for t in (xs[0], ys[0]):
            if kind(t) not in ("I", None):
                raise Unsupported("ordering of non-integers")
        x, y = acc("I", xs[0]), acc("I", ys[0])
        return Or(x < y, And(Eq(x, y), self.lexlt(xs[1:], ys[1:], orequal)))

    def listcmp(self, st, a, b, orequal):
        qa, qb = self.sel(st, "lst", acc("R", a)), self.sel(st, "lst", acc("R", b))
        la, lb = litq(qa), litq(qb)
        if la is not None and lb is not None:
            return [(st, mkB(self.lexlt(la, lb, orequal)))]
        if la is None and lb is None:
            # an uninterpreted total order
            x, y = self.reifyQ(qa, st), self.reifyQ(qb, st)
            f = z3.Function("lexlt", Q, Q, Bool)
            return [(st, mkB(Not(f(y, x)) if orequal else f(x, y)))]
        if lb is not None:
            return [(st, mkB(self._lexq(qa, 0, lb, orequal, False)))]
        return [(st, mkB(self._lexq(qb, 0, la, orequal, True)))]

    def _lexq(self, q, i, ls, orequal, swapped):
        """q[i:] < ls  (or ls < q[i:] when swapped); integer elements."""
        n = qlen(q)
        if not ls:
            if swapped:
                return (n >= i) if orequal else (n > i)
            return And(n == i) if orequal else Fa
        x, y = acc("I", qat(q, i)), acc("I", ls[0])
        more = self._lexq(q, i + 1, ls[1:], orequal, swapped)
        if swapped:
            return And(n > i, Or(y < x, And(Eq(y, x), more)))
        return Or(n <= i, Or(x < y, And(Eq(x, y), more)))

    def contains(self, c, x, st):
        """[(st, Bool term)] for x in c."""
        if isinstance(c, Tup):
            return [(st, Or(*[self.eq(x, y, st) for y in c.vals]))]
        if isinstance(c, K):
            o = c.obj
            if isinstance(o, (list, tuple, set, frozenset, dict, collections.abc.KeysView)):
                if isinstance(x, K):
                    return [(st, z3.BoolVal(x.obj in o))]
                return [(st, Or(*[self.eq(x, self.pyval(y), st) for y in sorted(o, key=repr)]))]
            raise Unsupported(f"in {type(o)}")
        if isinstance(c, Mapped):
            if c.what == "keys":
                c = c.m
            else:
                raise Unsupported("in view")
        if not z3.is_expr(c):
            raise Unsupported("in iterator")
        if isinstance(x, Tup):
            x = self.reify(x, st) if False else self.toV(x, st)
        x = self.toV(x, st)

        def in_list(s):
            q = self.sel(s, "lst", acc("R", c))
            vs = litq(q)
            if vs is not None:
                return [(s, Or(*[self.eq(x, y, s) for y in vs]))]
            if kind(x) not in (None, "R"):
                return [(s, qhas(q, x))]
            j = z3.FreshConst(Int, "j")
            # equality of unknown values: by a bounded existential
            body = self.eq(qat(q, j), x, s)
            return [(s, z3.Exists([j], And(0 <= j, j < qlen(q), body)))]

        def in_str(s):
            return self.guard(s, isk("S", x), lambda s2: [(s2, z3.Contains(acc("S", c), acc("S", x)))], TypeError)

        if kind(x) == "R" and kind(c) == "R" and False:
            pass
        return self.cases(st, [
            (Or(self.is_dict(c), self.is_set(c)), lambda s: [(s, mhas(self.sel(s, "dct", acc("R", c)), self.keyof(x, s)))]),
            (self.is_list(c), in_list),
            (isk("S", c), in_str),
        ], lambda s: self.obj_contains(c, x, s))

    def obj_contains(self, c, x, s):
        return self.exc(s, TypeError)

    def keyof(self, x, st):
        """Dictionary key of a value (tuples by structure)."""
        if isinstance(x, Tup):
            return self.reify(x, st)
        x = self.toV(x, st)
        if kind(x) == "R":
            return self.reify(x, st)
        return x

    # ---- attributes and subscripts
    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: self.getattr(s, v, e.attr))

    def getattr(self, st, v, name):
        if isinstance(v, K):
            gk = (getattr(v.obj, "__name__", None), name)
            if isinstance(v.obj, types.ModuleType) and gk in self.ghost:
                return [(st, self.comp(st, "g:" + ".".join(gk)))]
            if v.obj is LINES:
                return [(st, v)]
            if not hasattr(v.obj, name):
                return self.exc(st, AttributeError)
            a = getattr(v.obj, name)
            if isinstance(v.obj, (types.ModuleType, type)) or not callable(a):
                return [(st, self.pyval(a))]
            return [(st, BM(v, name))]
        if isinstance(v, Exc):
            if name == "args":
                return [(st, Tup(v.args))]
            if name in ("message", "msg", "strerror") :
                return [(st, mkS(self.strof(v, st)))]
            if name in ("__cause__",):
                return [(st, v.cause if v.cause is not None else NONE)]
            return [(st, BM(v, name))]
        if not z3.is_expr(v):
            return [(st, BM(v, name))]
        if name in ("__class__", "__name__"):
            raise Unsupported(name)
        if name == "lc" and any(c.__module__.startswith("ruamel.") for c in self.universe):
            # line and column bookkeeping of the YAML library: not part of the
            # value (copies of a map are taken to keep its class)
            if fresh_site(acc("R", v)) and kind(v) == "R":
                return [(st, K(LINES))]
            ok = And(isk("R", v), self.reftag(acc("R", v), lambda c: c.__module__.startswith("ruamel.")))
            return self.cases(st, [(ok, lambda s: [(s, K(LINES))])], lambda s: self.exc(s, AttributeError))
        data = self.class_data(st, v, name)
        if data is not None:
            return data
        if kind(v) not in (None, "R"):
            pt = {k: p for p, k in _PKIND}[kind(v)]
            return [(st, BM(v, name))] if hasattr(pt, name) else self.exc(st, AttributeError)
        r = acc("R", v)
        meth = [c for c in self.universe_for(r) if name not in attrs_of(c) and hasattr(c, name)]
        ok = And(isk("R", v), self.reftag(r, lambda c: name in attrs_of(c)))
        res = []
        for s, b in self.split(st, ok):
            if b:
                res.append((s, self.sel(s, "a:" + name, r)))
                continue
            rest = s
            done = False
            for c in meth:
                a = inspect.getattr_static(c, name)
                if isinstance(a, property):
                    for s2, b2 in self.split(rest, And(isk("R", v), self.reftag(r, lambda k, c=c: k is c))):
                        if b2:
                            res.extend(self.call_fn(s2, a.fget, [v], {}))
                        else:
                            rest = s2
                            break
                    else:
                        done = True
                        break
            if done:
                continue
            is_m = Or(And(isk("R", v), self.reftag(r, lambda c: hasattr(c, name) and name not in attrs_of(c))),
                      *[isk(k, v) for p, k in _PKIND if hasattr(p, name)])
            for s2, b2 in self.split(rest, is_m):
                if b2:
                    res.append((s2, BM(v, name)))
                else:
                    res.extend(self.exc(s2, AttributeError))
        return res

    def class_data(self, st, v, name):
        """an attribute that is plain data of the class."""
        if kind(v) not in (None, "R"):
            return None
        r = acc("R", v)
        groups = []
        for c in self.universe_for(r):
            a = inspect.getattr_static(c, name, None)
            if a is None or name in attrs_of(c) or callable(a) or hasattr(a, "__get__"):
                continue
            for g in groups:
                if g[0] is a:
                    g[1].append(c)
                    break
            else:
                groups.append((a, [c]))
        if not groups:
            return None
        if len(groups) == len([c for c in self.universe_for(r)]) == 1:
            return [(st, self.pyval(groups[0][0]))]
        alts = [(And(isk("R", v), self.reftag(r, lambda k, cs=cs: k in cs)), lambda s, a=a: [(s, self.pyval(a))]) for a, cs in groups]
        return self.cases(st, alts, lambda s: self.exc(s, AttributeError))

    def universe_for(self, r):
        f = fresh_site(r)
        return (f[1],) if f else self.universe

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            def f(s, v):
                bounds = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                def g(s2, bs):
                    it = iter(bs)
                    lo, hi, step = [next(it) if x is not None else None for x in bounds]
                    return self.slice(s2, v, lo, hi, step)
                return self.bind(self.evs([b for b in bounds if b is not None], s), g)
            return self.bind(self.ev(e.value, st), f)
        return self.bind(self.evs([e.value, e.slice], st), lambda s, vs: self.getitem(s, vs[0], vs[1]))

    def getitem(self, st, o, k):
        if isinstance(o, Tup):
            try:
                return [(st, o.vals[lit(self.toV(k, st))])]
            except KeyError:
                raise Unsupported("tuple index")
            except IndexError:
                return self.exc(st, IndexError)
        if isinstance(o, K):
            if isinstance(o.obj, (type, types.GenericAlias)) or getattr(o.obj, "__module__", "") == "typing":
                return [(st, K(object))]
            if isinstance(o.obj, dict):
                out, rest = [], st
                for kk, vv in o.obj.items():
                    nxt = None
                    for s2, b in self.split(rest, self.eq(k, self.pyval(kk), rest)):
                        if b:
                            out.append((s2, self.pyval(vv)))
                        else:
                            nxt = s2
                    rest = nxt
                    if rest is None:
                        return out
                return out + self.exc(rest, KeyError)
            if isinstance(o.obj, (tuple, list)):
                try:
                    return [(st, self.pyval(o.obj[lit(self.toV(k, st))]))]
                except KeyError:
                    raise Unsupported("constant index")
            raise Unsupported(f"subscript of {o!r}")
        if not z3.is_expr(o):
            raise Unsupported("subscript")
        r = acc("R", o)
        k0 = k
        if isinstance(k, Tup):
            k = self.reify(k, st)
        k = self.toV(k, st)

        def f_list(s):
            def ok(s2):
                q = self.sel(s2, "lst", r)
                i = acc("I", k)
                n = qlen(q)
                if z3.is_int_value(i):
                    idx = i if i.as_long() >= 0 else _addi(n, i)
                    cond = (n > i) if i.as_long() >= 0 else (n >= -i.as_long())
                    if z3.is_int_value(n):
                        cond = z3.BoolVal(-n.as_long() <= i.as_long() < n.as_long())
                else:
                    idx = If(i >= 0, i, i + n)
                    cond = And(i < n, -n <= i)
                    if self.entails(s2, i >= 0):
                        idx, cond = i, i < n
                return self.guard(s2, cond, lambda s3: self.read(s3, qat(q, idx)), IndexError)
            return self.guard(s, isk("I", k), ok, TypeError)

        def f_dict(s):
            m = self.sel(s, "dct", r)
            kk = self.keyof(k, s)
            x, puts = m, []
            while z3.is_app(x) and x.decl().name() == "mput":
                puts.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if x.eq(mnil) and 1 < len(puts) < 9 and not _literal(kk) and any(kind(v) == "R" and fresh_site(acc("R", v)) for _, v in puts):
                # one of several objects made here: one path for each
                out, rest = [], [s]
                for a, v in puts:
                    nxt = []
                    for s1 in rest:
                        for s2, b in self.split(s1, kk == a):
                            if b:
                                out.append((s2, v))
                            else:
                                nxt.append(s2)
                    rest = nxt
                for s1 in rest:
                    out.extend(self.exc(s1, KeyError))
                return out
            return self.guard(s, mhas(m, kk), lambda s2: self.read(s2, mget(m, kk)), KeyError)

        def f_str(s):
            def ok(s2):
                i, t = acc("I", k), acc("S", o)
                n = z3.Length(t)
                idx = If(i >= 0, i, i + n)
                return self.guard(s2, And(idx >= 0, idx < n), lambda s3: [(s3, mkS(z3.SubString(t, idx, 1)))], IndexError)
            return self.guard(s, isk("I", k), ok, TypeError)
        return self.cases(st, [(self.is_dict(o), f_dict), (self.is_list(o), f_list), (isk("S", o), f_str)],
                          lambda s: self.exc(s, TypeError))

    def read(self, st, v):
        """A value read from the heap: record what is known about its type."""
        return [(st, v)]

    def slice(self, st, o, lo, hi, step):
        if step is not None:
            raise Unsupported("slice step")
        if isinstance(o, Tup):
            g = lambda x: None if x is None else lit(self.toV(x, st))
            return [(st, Tup(o.vals[g(lo):g(hi)]))]

        def ix(x, n, default):
            if x is None:
                return default
            x = self.toV(x, st)
            i = acc("I", x)
            if z3.is_int_value(i):
                c = i.as_long()
                if c >= 0:
                    return If(n >= c, z3.IntVal(c), n)
                return If(n >= -c, _addi(n, i), z3.IntVal(0))
            return If(i >= 0, If(i <= n, i, n), If(i + n >= 0, i + n, z3.IntVal(0)))

        def f_list(s):
            s = s.fork()
            q = self.sel(s, "lst", acc("R", o))
            n = qlen(q)
            if lo is None and hi is None:
                return [(s, self.newlist(s, q))]
            a, b = ix(lo, n, z3.IntVal(0)), ix(hi, n, n)
            vs = litq(q)
            if vs is not None and z3.is_int_value(z3.simplify(a)) and z3.is_int_value(z3.simplify(b)):
                a, b = z3.simplify(a).as_long(), z3.simplify(b).as_long()
                return [(s, self.newlist(s, qlist(vs[a:b])))]
            return [(s, self.newlist(s, qsub(q, a, If(b >= a, b, a))))]

        def f_str(s):
            t = acc("S", o)
            if _literal(o) and all(x is None or _literal(self.toV(x, s)) for x in (lo, hi)):
                g = lambda x: None if x is None else lit(self.toV(x, s))
                return [(s, self.pyval(lit(o)[g(lo):g(hi)]))]
            n = z3.Length(t)
            a, b = ix(lo, n, z3.IntVal(0)), ix(hi, n, n)
            return [(s, mkS(z3.SubString(t, a, If(b >= a, b - a, z3.IntVal(0)))))]

        def f_bytes(s):
            t = acc("Y", o)
            n = z3.Length(t)
            a, b = ix(lo, n, z3.IntVal(0)), ix(hi, n, n)
            return [(s, mkY(z3.SubString(t, a, If(b >= a, b - a, z3.IntVal(0)))))]
        o = self.toV(o, st)
        return self.cases(st, [(self.is_list(o), f_list), (isk("S", o), f_str), (isk("Y", o), f_bytes)], lambda s: self.exc(s, TypeError))

    # ---- comprehensions: desugared to loops
    def _comp(self, e, st, cls, leaf):
        gens = e.generators
        acc_name = self.name("acc")
        body = leaf(acc_name)
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=e.lineno)]
        body = [ast.fix_missing_locations(ast.copy_location(b, e)) for b in body]
        s = st.fork()
        s.env[acc_name] = self.newlist(s, qnil, cls) if cls is list else self.newdict(s, mnil, cls)
        names = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.env.get(n) for n in names}
        out = []
        for kd, s2, pay in self.block(body, s):
            s2 = s2.fork()
            v = s2.env.pop(acc_name, None)
            for n in names:
                s2.env.pop(n, None)
                if saved[n] is not None:
                    s2.env[n] = saved[n]
            if kd == "norm":
                out.append((s2, v))
            elif kd == "raise":
                out.append((s2, Raised(pay)))
            else:
                raise Unsupported(kd)
        return out

    def ev_ListComp(self, e, st):
        return self._comp(e, st, list, lambda a: [ast.Expr(ast.Call(ast.Attribute(ast.Name(a, ast.Load()), "append", ast.Load()), [e.elt], []))])

    def ev_GeneratorExp(self, e, st):
        return self.ev_ListComp(e, st)

    def ev_SetComp(self, e, st):
        return self._comp(e, st, set, lambda a: [ast.Expr(ast.Call(ast.Attribute(ast.Name(a, ast.Load()), "add", ast.Load()), [e.elt], []))])

    def ev_DictComp(self, e, st):
        return self._comp(e, st, dict, lambda a: [ast.Assign([ast.Subscript(ast.Name(a, ast.Load()), e.key, ast.Store())], e.value)])

    def search(self, e, st, found, default):
        """any / all / next over a generator expression."""
        body = found
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=e.lineno)]
        body = [ast.fix_missing_locations(ast.copy_location(b, e)) for b in body]
        out = []
        env0 = st.env
        for kd, s2, pay in self.block(body, st.fork()):
            s2 = s2.fork()
            s2.env = dict(env0)
            if kd == "norm":
                out.extend(default(s2))
            elif kd == "ret":
                out.append((s2, pay))
            elif kd == "raise":
                out.append((s2, Raised(pay)))
            else:
                raise Unsupported(kd)
        return out

    def ev_Starred(self, e, st):
        raise Unsupported("starred expression")

    def ev_Yield(self, e, st):
        def f(s, v):
            s = s.fork()
            q = self.sel(s, "lst", s.yld)
            self.put(s, "lst", s.yld, qapp(q, self.toV(v, s)))
            return [(s, NONE)]
        return self.bind(self.ev(e.value, st) if e.value else [(st, NONE)], f)

    def ev_YieldFrom(self, e, st):
        def f(s, v):
            def g(s2, q2):
                s2 = s2.fork()
                self.put(s2, "lst", s2.yld, qcat(self.sel(s2, "lst", s2.yld), q2))
                return [(s2, NONE)]
            return self.bind(self.toQ(s, v), g)
        return self.bind(self.ev(e.value, st), f)

    # ---- iteration
    def toQ(self, st, v):
        """[(st, Q term)] of the elements of an iterable."""
        if isinstance(v, Tup):
            st = st.fork()
            return [(st, qlist([self.toV(x, st) for x in v.vals]))]
        if isinstance(v, K) and isinstance(v.obj, (list, tuple)):
            return [(st, qlist([self.toV(self.pyval(x), st) for x in v.obj]))]
        if isinstance(v, K) and isinstance(v.obj, (set, frozenset, dict)):
            return [(st, qlist([self.toV(self.pyval(x), st) for x in sorted(v.obj, key=repr)]))]
        if isinstance(v, Mapped):
            m = self.sel(st, "dct", acc("R", v.m))
            if v.what == "keys":
                return [(st, mkeys(m))]
            return self.it_to_q(st, self.mk_view(st, v))
        if isinstance(v, It):
            return self.it_to_q(st, v)
        if not z3.is_expr(v):
            raise Unsupported("iterate")
        return self.cases(st, [
            (self.is_list(v), lambda s: [(s, self.sel(s, "lst", acc("R", v)))]),
            (Or(self.is_dict(v), self.is_set(v)), lambda s: [(s, mkeys(self.sel(s, "dct", acc("R", v))))]),
            (isk("S", v), lambda s: self._str_q(s, v)),
        ], lambda s: self.exc(s, TypeError))

    def _str_q(self, s, v):
        j = z3.FreshConst(Int, "j")
        f = z3.Function("chars", Str, Q)
        q = f(acc("S", v))
        self.axioms.append(({"chars"}, self._chars_axiom(f)))
        return [(s, q)]

    def _chars_axiom(self, f):
        x, i = z3.Const("x", Str), z3.Int("i")
        return z3.ForAll([x, i], And(qlen_(f(x)) == z3.Length(x), z3.Implies(z3.And(0 <= i, i < z3.Length(x)), qat_(f(x), i) == V.S(z3.SubString(x, i, 1)))), patterns=[qat_(f(x), i)])

    def it_to_q(self, st, it):
        if it.guard is not None:
            raise Unsupported("guarded iterator as list")
        if z3.is_int_value(it.n) and it.n.as_long() <= 12:
            st = st.fork()
            return [(st, qlist([self.toV(it.elem(z3.IntVal(i)), st) for i in range(it.n.as_long())]))]
        j = z3.FreshConst(Int, "j")
        v = it.elem(j)
        if isinstance(v, Tup):
            # a tuple per element
            nm = self.name("fam")
            dec = z3.Function(nm, *[Int] * (len(self.bound) + 1), Int)
            FRESH[nm] = (next(_sites), tuple)
            formals = list(self.bound) + [j]
            self.fam[("lst", nm)] = (formals, qlist([self.toV(x, st) for x in v.vals]))
            v = mkR(dec(*formals))
        v = self.toV(v, st)
        return [(st, self.mapq(it.n, j, v))]

    def mapq(self, n, j, elem):
        nm = self.name("map")
        formals = list(self.bound) + [z3.FreshConst(Int, "N")]
        QTAB[nm] = QRec(formals, formals[-1], j, elem=elem)
        return z3.Function(nm, *[Int] * len(formals), Q)(*(list(self.bound) + [n]))

    def mk_iter(self, st, v):
        """[(st, It or python list of values)]"""
        if isinstance(v, Tup):
            return [(st, list(v.vals))]
        if isinstance(v, list):
            return [(st, v)]
        if isinstance(v, It):
            if v.guard is None and z3.is_int_value(v.n) and v.n.as_long() <= 12:
                return [(st, [v.elem(z3.IntVal(i)) for i in range(v.n.as_long())])]
            return [(st, v)]
        if isinstance(v, K):
            o = v.obj
            if isinstance(o, dict):
                return [(st, [self.pyval(x) for x in o])]
            if isinstance(o, (list, tuple)):
                return [(st, [self.pyval(x) for x in o])]
            if isinstance(o, (set, frozenset)):
                return [(st, [self.pyval(x) for x in sorted(o, key=repr)])]
            raise Unsupported(f"iterate {o!r}")
        if isinstance(v, Mapped):
            it = self.mk_view(st, v)
            return [(st, it)]

        def fin(s, q):
            vs = litq(q)
            if vs is not None:
                return [(s, list(vs))]
            fu = self.fuse(q)
            return [(s, fu if fu else It(qlen(q), lambda j, q=q: qat(q, j)))]
        return self.bind(self.toQ(st, v), fin)

    def fuse(self, q):
        """iterate a filtered sequence by its guard."""
        r = qrec(q)
        if r is None or r.elem is not None or not r.paths:
            return None
        guards, vals = [], []
        for pcs, part in r.paths:
            vs = litq(part)
            if vs is None or len(vs) > 1:
                return None
            if vs:
                guards.append(And(*pcs))
                vals.append(vs[0])
        g = Or(*guards)
        v = vals[-1]
        for c, w in list(zip(guards, vals))[:-1][::-1]:
            v = If(c, w, v)
        args = [(f, q.arg(i)) for i, f in enumerate(r.formals)]
        n = q.arg(len(r.formals) - 1)
        return It(n, lambda j: subst(v, args + [(r.j, j)]), lambda j: subst(g, args + [(r.j, j)]))

    def mk_view(self, st, v):
        m = self.sel(st, "dct", acc("R", v.m))
        ks = mkeys(m)
        ls = litq(ks)
        if ls is not None:
            vals = [Tup([k, mget(m, k)]) if v.what == "items" else (k if v.what == "keys" else mget(m, k)) for k in ls]
            return vals
        if v.what == "items":
            return It(qlen(ks), lambda j: Tup([qat(ks, j), mget(m, qat(ks, j))]))
        if v.what == "keys":
            return It(qlen(ks), lambda j: qat(ks, j))
        return It(qlen(ks), lambda j: mget(m, qat(ks, j)))

    # ---- calls
    def ev_Await(self, e, st):
        raise Unsupported("await")

    def ev_Call(self, e, st):
        # any / all / next over generator expressions keep short-circuiting
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "next") and e.args and isinstance(e.args[0], ast.GeneratorExp) and e.func.id not in st.env:
            g = e.args[0]
            if e.func.id == "any":
                return self.search(g, st, [ast.If(test=g.elt, body=[ast.Return(ast.Constant(True))], orelse=[])], lambda s: [(s, FALSE)])
            if e.func.id == "all":
                return self.search(g, st, [ast.If(test=g.elt, body=[], orelse=[ast.Return(ast.Constant(False))])], lambda s: [(s, TRUE)])
            dflt = (lambda s: self.ev(e.args[1], s)) if len(e.args) > 1 else (lambda s: self.exc(s, StopIteration))
            return self.search(g, st, [ast.Return(g.elt)], dflt)

        def f(s, fv):
            if self.dropped(fv):
                return self.bind(self.evs([a for a in e.args if self.plain(a) and not isinstance(a, (ast.Name, ast.Constant))], s), lambda s2, vs: [(s2, NONE)])
            if isinstance(fv, K) and fv.obj is typing.cast:
                return self.ev(e.args[1], s)
            if isinstance(fv, K) and fv.obj is print:
                return [(s, NONE)]
            if isinstance(fv, K) and self.lazy and _hashable(fv.obj) and fv.obj in self.lazy and (fv.obj is not str or "$exc" in s.env):
                # the arguments only make up an error message: not evaluated
                self.assumed.add(f"{_key(fv.obj)}: making up an error message raises nothing")
                return self.lazy[fv.obj](self, s, [], {})
            pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kws = [k.value for k in e.keywords]

            def g(s2, vs):
                args, kw = [], {}
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, Tup):
                            args.extend(v.vals)
                        else:
                            q = litq(self.sel(s2, "lst", acc("R", v))) if z3.is_expr(v) and kind(v) == "R" else None
                            if q is None:
                                raise Unsupported("*args of unknown length")
                            args.extend(q)
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if isinstance(v, K) and isinstance(v.obj, dict):
                            kw.update({kk: self.pyval(vv) for kk, vv in v.obj.items()})
                            continue
                        m = self.sel(s2, "dct", acc("R", v))
                        ks = litq(mkeys(m))
                        if ks is None:
                            raise Unsupported("**kwargs of unknown keys")
                        for kk in ks:
                            kw[lit(kk)] = mget(m, kk)
                    else:
                        kw[k.arg] = v
                return self.call(s2, fv, args, kw, e)
            return self.bind(self.evs(pos + kws, s), g)
        return self.bind(self.ev(e.func, st), f)

    def plain(self, e):
        """only names, attributes, items and constants: evaluated even where the call is dropped"""
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Attribute):
            return self.plain(e.value)
        if isinstance(e, ast.Subscript):
            return self.plain(e.value) and self.plain(e.slice)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            return e.func.id == "cast" and self.plain(e.args[1]) or e.func.id == "getattr" and all(self.plain(a) for a in e.args)
        return False

    def dropped(self, fv):
        return isinstance(fv, BM) and isinstance(fv.recv, K) and isinstance(fv.recv.obj, logging.Logger)

    def call(self, st, fv, args, kw, node=None):
        if isinstance(fv, Clo):
            return self.call_clo(st, fv, args, kw)
        if isinstance(fv, BM):
            return self.call_method(st, fv.recv, fv.name, args, kw, node)
        if isinstance(fv, K):
            return self.call_obj(st, fv.obj, args, kw, node)
        raise Unsupported("call of unknown value")

    def call_obj(self, st, o, args, kw, node=None):
        from . import models

        h = self.contract_for(o)
        if h is not None:
            return h(self, st, args, kw)
        m = models.FUNCS.get(_key(o))
        if m is not None:
            return m(self, st, args, kw)
        if isinstance(o, type):
            if _key(o) in self.pure:
                return self.pure_app(st, _key(o), args, kw)
            return self.construct(st, o, args, kw)
        if isinstance(o, functools.partial):
            return self.call_obj(st, o.func, [self.pyval(a) for a in o.args] + args, {**{k: self.pyval(v) for k, v in o.keywords.items()}, **kw})
        f = inspect.unwrap(o) if callable(o) else o
        if isinstance(f, types.MethodType):
            return self.call_obj(st, f.__func__, [self.pyval(f.__self__)] + args, kw, node)
        if isinstance(f, types.FunctionType):
            qn = f"{f.__module__}.{f.__qualname__}"
            if qn in self.pure or f.__module__ in self.pure:
                return self.pure_app(st, qn, args, kw)
            if f.__module__.split(".")[0] in ("cwl_utils", "schema_salad", "checks", "__main__") or f.__module__.startswith(self.inline_extra or ("\0",)):
                return self.call_fn(st, f, args, kw)
        qn = _key(o)
        if qn in self.pure:
            return self.pure_app(st, qn, args, kw)
        if isinstance(o, types.BuiltinFunctionType) and (o.__module__ or "").split(".")[0] == "schema_salad":
            g = extract.compiled_source(o)
            if g is not None:
                self.assumed.add(f"{qn}: the compiled function behaves as the Python source beside it")
                return self.call_fn(st, g, args, kw)
        raise Unsupported(f"call of {qn}")

    def contract_for(self, o):
        try:
            if o in self.contracts:
                return self.contracts[o]
        except TypeError:
            pass
        f = getattr(o, "__func__", None)
        if f is not None and f in self.contracts:
            return self.contracts[f]
        return None

    def pure_app(self, st, qn, args, kw, ret=None):
        """An uninterpreted function of the structure of its arguments."""
        self.assumed.add(f"{qn}: pure, deterministic, no exception")
        ret = ret or self.pure.get(qn)
        args, kw = _positional(qn, args, kw)
        vs = [self.reify(a, st) for a in args] + [self.reify(kw[k], st) for k in sorted(kw)]
        nm = qn + "".join(":" + k for k in sorted(kw))
        OPAQUE_RESULT.add(nm)
        t = z3.Function(nm, *[V] * len(vs), V)(*vs)
        if ret == "S":
            OPAQUE_RESULT.add(nm + "$s")
            return [(st, mkS(z3.Function(nm + "$s", *[V] * len(vs), Str)(*vs)))]
        if ret == "B":
            return [(st, mkB(z3.Function(nm + "$b", *[V] * len(vs), Bool)(*vs)))]
        if ret == "R":
            return [(st, mkR(z3.Function(nm + "$r", *[V] * len(vs), Int)(*vs)))]
        if ret and ret[0] == "[":
            # an iterable of tuples of the given kinds
            OPAQUE_RESULT.add(nm + "$q")
            q = z3.Function(nm + "$q", *[V] * len(vs), Q)(*vs)
            mk = {"S": (mkS, Str), "V": (lambda t: t, V), "I": (mkI, Int), "B": (mkB, Bool)}

            def elem(j):
                xs = []
                for i, c in enumerate(ret[1:-1]):
                    f, srt = mk[c]
                    OPAQUE_RESULT.add(f"{nm}${i}")
                    xs.append(f(z3.Function(f"{nm}${i}", *[V] * len(vs), Int, srt)(*vs, j)))
                return Tup(xs) if len(xs) > 1 else xs[0]
            return [(st, It(qlen(q), elem))]
        return [(st, t)]

    def construct(self, st, cls, args, kw):
        if issubclass(cls, BaseException):
            return [(st, Exc(cls, args))]
        if cls in self.opaque:
            return self.pure_app(st, _key(cls), args, kw)
        init = cls.__init__
        if not isinstance(init, types.FunctionType):
            if args or kw:
                raise Unsupported(f"constructor of {cls}")
            st = st.fork()
            return [(st, mkR(self.alloc(cls)))]
        r = self.alloc(cls)
        st = st.fork()
        me = mkR(r)
        return self.bind(self.call_fn(st, init, [me] + list(args), kw), lambda s, _: [(s, me)])

    def bindargs(self, st, node, func, args, kw):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for p in params:
            if args:
                env[p] = args.pop(0)
        if a.vararg:
            env[a.vararg.arg] = Tup(args)
            args = []
        kw = dict(kw)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in kw and p not in env:
                env[p] = kw.pop(p)
        if a.kwarg:
            m = mnil
            for k, v in kw.items():
                m = mput(m, mkS(k), self.toV(v, st))
            env[a.kwarg.arg] = self.newdict(st, m)
            kw = {}
        if args or kw:
            return None
        defaults = list(func.__defaults__ or ()) if func is not None else None
        if defaults is not None:
            for p, d in zip(params[len(params) - len(defaults):], defaults):
                if p not in env:
                    env[p] = self.pyval(d)
            for p, d in (func.__kwdefaults__ or {}).items():
                if p not in env:
                    env[p] = self.pyval(d)
        else:
            for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
                if p not in env:
                    env[p] = self.ev(d, st)[0][1]
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                return None
        return env

    def call_fn(self, st, func, args, kw, rec=False):
        """Inline a Python function."""
        f = extract.fn(func)
        if self.stack.count(f.key) >= 1 and not rec:
            raise Unsupported(f"recursion in {f.key} without a contract")
        if len(self.stack) > 25:
            raise Unsupported("inline depth")
        self.covered[f.key] = f
        st = st.fork()
        env = self.bindargs(st, f.node, f.func, args, kw)
        if env is None:
            return self.exc(st, TypeError)
        if f.func.__closure__:
            for n, c in zip(f.func.__code__.co_freevars, f.func.__closure__):
                try:
                    env.setdefault(n, self.pyval(c.cell_contents))
                except ValueError:
                    pass
        inner = St(st.pc, env, st.heap, f.glb, f, None)
        gen = f.is_gen
        if gen:
            inner.yld = self.alloc(list)
            self.put(inner, "lst", inner.yld, qnil)
        self.stack.append(f.key)
        try:
            outs = self.block(f.node.body, inner)
        finally:
            self.stack.pop()
        res = []
        for kd, s, pay in outs:
            back = St(s.pc, st.env, s.heap, st.glb, st.fn, st.yld)
            if kd == "norm":
                res.append((back, mkR(s.yld) if gen else NONE))
            elif kd == "ret":
                res.append((back, mkR(s.yld) if gen else pay))
            elif kd == "raise":
                res.append((back, Raised(pay)))
            else:
                raise Unsupported(kd)
        return res

    def call_clo(self, st, c, args, kw):
        st = st.fork()
        env = dict(c.env)
        if c.late or c.shared:
            # by reference: the values the variables have now
            if st.fn is not c.fn or "$clo" in st.env:
                raise Unsupported("closure over a variable that changes")
            for n in c.late | c.shared:
                if n in st.env:
                    env[n] = st.env[n]
                elif n in env:
                    raise Unsupported("closure over a variable that changes")
        env["$clo"] = NONE
        b = self.bindargs(St(st.pc, env, st.heap, c.glb, st.fn), c.node, None, args, kw)
        if b is None:
            return self.exc(st, TypeError)
        env.update(b)
        if not isinstance(c.node, ast.Lambda):
            env.setdefault(c.name, c)
        inner = St(st.pc, env, st.heap, c.glb, st.fn, None)
        if self.stack.count(id(c.node)) >= 1:
            raise Unsupported("recursive closure")
        self.stack.append(id(c.node))
        try:
            if isinstance(c.node, ast.Lambda):
                outs = [("raise", s, v.exc) if isinstance(v, Raised) else ("ret", s, v) for s, v in self.ev(c.node.body, inner)]
                gen = False
            else:
                gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(c.node))
                if gen:
                    inner.yld = self.alloc(list)
                    self.put(inner, "lst", inner.yld, qnil)
                outs = self.block(c.node.body, inner)
        finally:
            self.stack.pop()
        res = []
        for kd, s, pay in outs:
            back = St(s.pc, {**st.env, **{n: s.env[n] for n in c.shared}} if c.shared else st.env, s.heap, st.glb, st.fn, st.yld)
            if kd in ("norm", "ret"):
                res.append((back, mkR(s.yld) if gen else (NONE if kd == "norm" else pay)))
            elif kd == "raise":
                res.append((back, Raised(pay)))
        return res

    def call_method(self, st, recv, name, args, kw, node=None):
        from . import models

        if name in self.virtual and (isinstance(recv, K) and hasattr(self.virtual[name][0], "mro") and isinstance(recv.obj, self.virtual[name][0])):
            return self.call_obj(st, self.virtual[name][1], [recv] + args, kw)
        if isinstance(recv, K):
            o = recv.obj
            k = f"{type(o).__module__}.{type(o).__qualname__}.{name}"
            if k in models.FUNCS:
                return models.FUNCS[k](self, st, [recv] + args, kw)
            if k in self.pure:
                return self.pure_app(st, k, [recv] + args, kw)
            if isinstance(o, dict) and name in ("get",):
                out = []
                dv = args[1] if len(args) > 1 else NONE
                for s, v in self.getitem(st, recv, args[0]):
                    out.append((s, dv) if isinstance(v, Raised) else (s, v))
                return out
            if isinstance(o, dict) and name in ("items", "keys", "values"):
                if name == "items":
                    return [(st, Tup([Tup([self.pyval(a), self.pyval(b)]) for a, b in o.items()]))]
                return [(st, Tup([self.pyval(a) for a in getattr(o, name)()]))]
            f = getattr(type(o), name, None)
            if isinstance(f, types.FunctionType):
                return self.call_obj(st, f, [recv] + args, kw)
            raise Unsupported(f"method {k}")
        if isinstance(recv, Mapped):
            raise Unsupported("method of view")
        if isinstance(recv, Exc):
            if name in ("strip", "__str__", "format"):
                return self.pure_app(st, f"exc.{name}", args, kw)
            if name in ("with_traceback", "with_sourceline", "simplify"):
                return [(st, recv)]
            return self.pure_app(st, f"exc.{name}", args, kw)
        if isinstance(recv, Tup):
            recv = self.toV(recv, st := st.fork())
        if not z3.is_expr(recv):
            raise Unsupported(f"method {name}")
        r = acc("R", recv)
        alts = []
        if name in STR_METHODS:
            alts.append((isk("S", recv), lambda s: models.str_method(self, s, recv, name, args, kw)))
        if name == "decode":
            alts.append((isk("Y", recv), lambda s: models.bytes_method(self, s, recv, name, args, kw)))
        if name in LIST_METHODS:
            alts.append((self.is_list(recv), lambda s: models.list_method(self, s, recv, name, args, kw)))
        if name in DICT_METHODS:
            alts.append((self.is_dict(recv), lambda s: models.dict_method(self, s, recv, name, args, kw)))
        if name in SET_METHODS:
            alts.append((self.is_set(recv), lambda s: models.set_method(self, s, recv, name, args, kw)))
        if name in self.virtual:
            # dynamic dispatch: every implementation is held to the contract of the base class
            base, target = self.virtual[name]
            alts.append((And(isk("R", recv), self.reftag(r, lambda k: issubclass(k, base))), lambda s: self.call_obj(s, target, [recv] + args, kw)))
        for c in self.universe_for(r):
            if issubclass(c, (list, dict, tuple, set, str)) or name in self.virtual and issubclass(c, self.virtual[name][0]):
                continue
            a = inspect.getattr_static(c, name, None)
            if a is None:
                continue

            def f(s, c=c, a=a):
                k = f"{c.__module__}.{c.__qualname__}.{name}"
                if k in models.FUNCS:
                    return models.FUNCS[k](self, s, [recv] + args, kw)
                if isinstance(a, (staticmethod, classmethod)):
                    fn_ = a.__func__
                    return self.call_obj(s, fn_, ([K(c)] if isinstance(a, classmethod) else []) + args, kw)
                for k in (k, "*." + name):
                    if k in self.pure:
                        return self.pure_app(s, k, [recv] + args, kw)
                return self.call_obj(s, a, [recv] + args, kw)
            alts.append((And(isk("R", recv), self.reftag(r, lambda k, c=c: k is c)), f))
        anyk = [k for k in self.pure if k.startswith("*.") and k[2:] == name]
        if anyk:
            alts.append((T, lambda s: self.pure_app(s, anyk[0], [recv] + args, kw)))
        return self.cases(st, alts, lambda s: self.exc(s, AttributeError))

    # ----------------------------------------------------------- statements
    def block(self, stmts, st):
        """[(kind, state, payload)]"""
        done, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    (nxt.append(o[1]) if o[0] == "norm" else done.append(o))
            if self.merge and len(nxt) > 1:
                nxt = self.merge_states(nxt)
            cur = nxt
            if not cur:
                break
            if len(cur) + len(done) > 3000:
                raise Unsupported("too many paths")
        return done + [("norm", c, None) for c in cur]

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {getattr(s, 'lineno', '?')}")
        return m(s, st)

    def lift(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Raised):
                out.append(("raise", st, v.exc))
            else:
                out.extend(f(st, v))
        return out

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("norm", st, None)]
        return self.lift(self.ev(s.value, st), lambda s2, v: [("norm", s2, None)])

    def st_Pass(self, s, st):
        return [("norm", st, None)]

    def st_Return(self, s, st):
        if s.value is None:
            return [("ret", st, NONE)]
        return self.lift(self.ev(s.value, st), lambda s2, v: [("ret", s2, v)])

    def st_Break(self, s, st):
        return [("brk", st, None)]

    def st_Continue(self, s, st):
        return [("cont", st, None)]

    def st_Global(self, s, st):
        return [("norm", st, None)]

    def st_Nonlocal(self, s, st):
        # the nested function that declares it runs in the frame that defines it
        outer = st.fn.node
        for f in ast.walk(outer):
            if isinstance(f, ast.FunctionDef) and f is not outer and any(n is s for n in ast.walk(f)):
                for loop in ast.walk(outer):
                    if isinstance(loop, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) or isinstance(loop, ast.FunctionDef) and loop is not outer and loop is not f:
                        if any(isinstance(n, ast.Name) and n.id == f.name or n is f for n in ast.walk(loop)):
                            raise Unsupported("nonlocal in a loop")
                if any(isinstance(loop, (ast.For, ast.While)) and any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in s.names for n in ast.walk(loop)) for loop in ast.walk(f)):
                    raise Unsupported("nonlocal in a loop")
        return [("norm", st, None)]

    def st_Import(self, s, st):
        import importlib

        st = st.fork()
        for a in s.names:
            m = importlib.import_module(a.name)
            st.env[a.asname or a.name.split(".")[0]] = K(m if a.asname else importlib.import_module(a.name.split(".")[0]))
        return [("norm", st, None)]

    def st_ImportFrom(self, s, st):
        import importlib

        st = st.fork()
        pkg = st.glb.get("__package__")
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg if s.level else None)
        for a in s.names:
            st.env[a.asname or a.name] = self.pyval(getattr(mod, a.name))
        return [("norm", st, None)]

    def st_FunctionDef(self, s, st):
        st = st.fork()
        st.env[s.name] = Clo(s, st.env, st.glb, s.name, st.fn)
        return [("norm", st, None)]

    def st_Assert(self, s, st):
        def f(s2, v):
            out = []
            for s3, b in self.split(s2, self.truth(v, s2)):
                out.append(("norm", s3, None) if b else ("raise", s3, Exc(AssertionError)))
            return out
        return self.lift(self.ev(s.test, st), f)

    def st_Raise(self, s, st):
        if s.exc is None:
            cur = st.env.get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            return [("raise", st, cur)]

        def f(s2, v):
            if isinstance(v, K) and isinstance(v.obj, type):
                v = Exc(v.obj)
            if not isinstance(v, Exc):
                raise Unsupported("raise of unknown value")
            if s.cause is not None:
                def g(s3, c):
                    v2 = Exc(v.cls, v.args, c)
                    return [("raise", s3, v2)]
                return self.lift(self.ev(s.cause, s2), g)
            return [("raise", s2, v)]
        return self.lift(self.ev(s.exc, st), f)

    def st_If(self, s, st):
        def f(s2, v):
            out = []
            for s3, b in self.split(s2, self.truth(v, s2)):
                out.extend(self.block(s.body if b else s.orelse, s3))
            return out
        return self.lift(self.ev(s.test, st), f)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [("norm", st, None)]
        return self.lift(self.ev(s.value, st), lambda s2, v: self.assign(s.target, v, s2))

    def st_Assign(self, s, st):
        def f(s2, v):
            outs = [("norm", s2, None)]
            for t in s.targets:
                nxt = []
                for o in outs:
                    nxt.extend(self.assign(t, v, o[1]) if o[0] == "norm" else [o])
                outs = nxt
            return outs
        return self.lift(self.ev(s.value, st), f)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st = st.fork()
            gk = (st.glb.get("__name__"), t.id)
            if gk in self.ghost and self._is_global(t.id, st):
                st.heap["g:" + ".".join(gk)] = self.toV(v, st)
                return [("norm", st, None)]
            st.env[t.id] = v
            return [("norm", st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            return self.lift(self.ev(t.value, st), lambda s, o: self.setattr(s, o, t.attr, v))
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is t.slice.upper is t.slice.step is None:
            def whole(s, o):
                def store(s2):
                    def put(s3, q):
                        s3 = s3.fork()
                        self.put(s3, "lst", acc("R", o), q)
                        return [(s3, NONE)]
                    return self.bind(self.toQ(s2, v), put)

                return self.cases(s, [(self.inst_pred(o, lambda c: issubclass(c, list)), store)], lambda s2: self.exc(s2, TypeError))
            return self.lift(self.bind(self.ev(t.value, st), whole), lambda s, _: [("norm", s, None)])
        if isinstance(t, ast.Subscript):
            return self.lift(self.evs([t.value, t.slice], st), lambda s, ok: self.setitem(s, ok[0], ok[1], v))
        raise Unsupported(f"assign to {type(t).__name__}")

    def _is_global(self, name, st):
        return st.fn is not None and any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(st.fn.node))

    def unpack(self, t, v, st):
        n = len(t.elts)
        if any(isinstance(x, ast.Starred) for x in t.elts):
            raise Unsupported("starred unpack")
        if isinstance(v, Tup):
            if len(v.vals) != n:
                return [("raise", st, Exc(ValueError))]
            vals = v.vals
            outs = [("norm", st, None)]
            for x, y in zip(t.elts, vals):
                outs = [p for o in outs for p in (self.assign(x, y, o[1]) if o[0] == "norm" else [o])]
            return outs

        def f(s, q):
            out = []
            for s2, b in self.split(s, Eq(qlen(q), z3.IntVal(n))):
                if not b:
                    out.append(("raise", s2, Exc(ValueError)))
                    continue
                outs = [("norm", s2, None)]
                for i, x in enumerate(t.elts):
                    outs = [p for o in outs for p in (self.assign(x, qat(q, i), o[1]) if o[0] == "norm" else [o])]
                out.extend(outs)
            return out
        return self.lift(self.toQ(st, v), f)

    def setattr(self, st, o, name, v):
        if isinstance(o, K) and (getattr(o.obj, "__name__", None), name) in self.ghost:
            st = st.fork()
            st.heap["g:" + o.obj.__name__ + "." + name] = self.reify(v, st) if False else self.toV(v, st)
            return [("norm", st, None)]
        if isinstance(o, K) and o.obj is LINES:
            return [("norm", st, None)]
        if not z3.is_expr(o):
            raise Unsupported("attribute assignment to constant")
        st = st.fork()
        v = self.toV(v, st)
        out = []
        r = acc("R", o)
        ok = And(isk("R", o), self.reftag(r, lambda c: not issubclass(c, (list, dict, tuple, set)) or c.__module__ != "builtins"))
        for s, b in self.split(st, ok):
            if b:
                s = s.fork()
                self.put(s, "a:" + name, r, v)
                out.append(("norm", s, None))
            else:
                out.append(("raise", s, Exc(AttributeError)))
        return out

    def setitem(self, st, o, k, v):
        if not z3.is_expr(o):
            raise Unsupported("item assignment to constant")
        st = st.fork()
        v = self.toV(v, st)
        r = acc("R", o)

        def f_dict(s):
            s = s.fork()
            self.put(s, "dct", r, mput(self.sel(s, "dct", r), self.keyof(k, s), v))
            return [(s, NONE)]

        def f_list(s):
            s = s.fork()
            q = self.sel(s, "lst", r)
            kk = self.toV(k, s)
            i = acc("I", kk)
            n = qlen(q)
            idx = If(i >= 0, i, i + n) if not z3.is_int_value(i) else (i if i.as_long() >= 0 else _addi(n, i))

            def ok(s2):
                s2 = s2.fork()
                vs = litq(q)
                if vs is not None and z3.is_int_value(idx):
                    vs[idx.as_long()] = v
                    self.put(s2, "lst", r, qlist(vs))
                else:
                    self.put(s2, "lst", r, qupd(q, idx, v))
                return [(s2, NONE)]
            return self.guard(s, And(idx >= 0, idx < n), ok, IndexError)
        rs = self.cases(st, [(self.is_dict(o), f_dict), (And(self.is_list(o), Not(self.inst(o, tuple))), f_list)], lambda s: self.exc(s, TypeError))
        return self.lift(rs, lambda s, _: [("norm", s, None)])

    def st_AugAssign(self, s, st):
        load = copy.copy(s.target)
        load = ast.copy_location(type(s.target)(**{**{f: getattr(s.target, f) for f in s.target._fields}, "ctx": ast.Load()}), s.target)

        def f(s2, vs):
            a, b = vs
            if isinstance(s.op, ast.Add) and z3.is_expr(a) and kind(a) in (None, "R") and not isinstance(b, Tup):
                out = []
                for s3, isl in self.split(s2, self.is_list(a)):
                    if isl:
                        out.extend(self.lift(self.call_method(s3, a, "extend", [b], {}), lambda s4, _: self.assign(s.target, a, s4)))
                    else:
                        out.extend(self.lift(self.binop("Add", a, b, s3), lambda s4, v: self.assign(s.target, v, s4)))
                return out
            if isinstance(s.op, ast.BitOr) and z3.is_expr(a):
                return self.lift(self.call_method(s2, a, "update", [b], {}), lambda s4, _: self.assign(s.target, a, s4))
            return self.lift(self.binop(type(s.op).__name__, a, b, s2), lambda s3, v: self.assign(s.target, v, s3))
        return self.lift(self.evs([load, s.value], st), f)

    def st_Delete(self, s, st):
        outs = [("norm", st, None)]
        for t in s.targets:
            nxt = []
            for o in outs:
                if o[0] != "norm":
                    nxt.append(o)
                    continue
                if isinstance(t, ast.Name):
                    s2 = o[1].fork()
                    s2.env.pop(t.id, None)
                    nxt.append(("norm", s2, None))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.lift(self.evs([t.value, t.slice], o[1]), lambda s2, vs: self.lift(
                        self.delitem(s2, vs[0], vs[1]), lambda s3, _: [("norm", s3, None)])))
                else:
                    raise Unsupported("del")
            outs = nxt
        return outs

    def delitem(self, st, o, k):
        r = acc("R", o)
        k = self.toV(k, st)

        def f(s):
            m = self.sel(s, "dct", r)

            def ok(s2):
                s2 = s2.fork()
                self.put(s2, "dct", r, mdel(m, self.keyof(k, s2)))
                return [(s2, NONE)]
            return self.guard(s, mhas(m, k), ok, KeyError)

        def fl(s):
            q = self.sel(s, "lst", r)
            i, n = acc("I", k), qlen(q)
            idx = If(i >= 0, i, i + n)

            def ok(s2):
                s2 = s2.fork()
                self.put(s2, "lst", r, qcat(qsub(q, z3.IntVal(0), idx), qsub(q, idx + 1, n)))
                return [(s2, NONE)]
            return self.guard(s, And(isk("I", k), idx >= 0, idx < n), ok, IndexError)
        return self.cases(st, [(self.is_dict(o), f), (self.is_list(o), fl)], lambda s: self.exc(s, TypeError))

    def st_Try(self, s, st):
        outs = []
        for kd, s2, pay in self.block(s.body, st):
            if kd == "raise":
                outs.extend(self.handle(s, s2, pay))
            elif kd == "norm" and s.orelse:
                outs.extend(self.block(s.orelse, s2))
            else:
                outs.append((kd, s2, pay))
        if s.finalbody:
            res = []
            for kd, s2, pay in outs:
                for kd3, s3, pay3 in self.block(s.finalbody, s2):
                    res.append((kd, s3, pay) if kd3 == "norm" else (kd3, s3, pay3))
            outs = res
        if self.merge:
            norm = [o[1] for o in outs if o[0] == "norm"]
            if len(norm) > 1:
                outs = [o for o in outs if o[0] != "norm"] + [("norm", x, None) for x in self.merge_states(norm)]
        return outs

    def handle(self, s, st, exc):
        for h in s.handlers:
            if h.type is None:
                classes = (BaseException,)
            else:
                rs = self.ev(h.type, st)
                v = rs[0][1]
                if isinstance(v, Tup):
                    classes = tuple(x.obj for x in v.vals)
                elif isinstance(v, K):
                    classes = v.obj if isinstance(v.obj, tuple) else (v.obj,)
                else:
                    raise Unsupported("handler type")
            if issubclass(exc.cls, classes):
                s2 = st.fork()
                if h.name:
                    s2.env[h.name] = exc
                prev = s2.env.get("$exc")
                s2.env["$exc"] = exc
                outs = []
                for kd, s3, pay in self.block(h.body, s2):
                    s3 = s3.fork()
                    if h.name:
                        s3.env.pop(h.name, None)
                    if prev is None:
                        s3.env.pop("$exc", None)
                    else:
                        s3.env["$exc"] = prev
                    outs.append((kd, s3, pay))
                return outs
            if any(issubclass(c, exc.cls) for c in classes) and exc.cls in (Exception, BaseException) and getattr(exc, "opaque", False):
                raise Unsupported("opaque exception")
        return [("raise", st, exc)]

    def st_With(self, s, st):
        from . import models

        if len(s.items) != 1:
            raise Unsupported("with")
        it = s.items[0]

        c = it.context_expr
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and it.optional_vars is None and len(c.args) == 3 and not c.keywords:
            k = self.lookup(c.func.id, st)
            if isinstance(k, K) and getattr(k.obj, "__qualname__", None) == "SourceLine":
                # whatever the body raises becomes the third argument's class
                def g(s2, vs):
                    if not (isinstance(vs[2], K) and isinstance(vs[2].obj, type) and issubclass(vs[2].obj, BaseException)):
                        raise Unsupported("SourceLine of another kind")
                    return [("raise", o[1], Exc(vs[2].obj)) if o[0] == "raise" else o for o in self.block(s.body, s2)]
                return self.lift(self.evs(c.args, st), g)

        def f(s2, v):
            h = models.with_model(self, v)
            if h is None:
                raise Unsupported("with statement")
            outs = []
            for s3, val in h(self, s2, v):
                if isinstance(val, Raised):
                    outs.append(("raise", s3, val.exc))
                    continue
                if it.optional_vars is not None:
                    for o in self.assign(it.optional_vars, val, s3):
                        outs.extend(self.block(s.body, o[1]) if o[0] == "norm" else [o])
                else:
                    outs.extend(self.block(s.body, s3))
            return outs
        return self.lift(self.ev(it.context_expr, st), f)

    def st_Match(self, s, st):
        def f(s0, subj):
            outs, rest = [], [s0]
            for c in s.cases:
                nxt = []
                for s2 in rest:
                    for s3, ok in self.pattern(c.pattern, subj, s2):
                        if not ok:
                            nxt.append(s3)
                        elif c.guard is None:
                            outs.extend(self.block(c.body, s3))
                        else:
                            for s4, g in self.ev(c.guard, s3):
                                if isinstance(g, Raised):
                                    outs.append(("raise", s4, g.exc))
                                    continue
                                for s5, b in self.split(s4, self.truth(g, s4)):
                                    if b:
                                        outs.extend(self.block(c.body, s5))
                                    else:
                                        nxt.append(s5)
                rest = nxt
            return outs + [("norm", r, None) for r in rest]
        return self.lift(self.ev(s.subject, st), f)

    def pattern(self, p, v, st):
        """[(state, matched)]"""
        if isinstance(p, ast.MatchValue):
            out = []
            for s, w in self.ev(p.value, st):
                out.extend(self.split(s, self.eq(v, w, s)))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.split(st, Eq(self.toV(v, st), self.toV(K(p.value), st)))
        if isinstance(p, ast.MatchAs):
            rs = self.pattern(p.pattern, v, st) if p.pattern else [(st, True)]
            out = []
            for s, ok in rs:
                if ok and p.name:
                    s = s.fork()
                    s.env[p.name] = v
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out, rest = [], [st]
            for q in p.patterns:
                nxt = []
                for s in rest:
                    for s2, ok in self.pattern(q, v, s):
                        (out.append((s2, True)) if ok else nxt.append(s2))
                rest = nxt
            return out + [(s, False) for s in rest]
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st)[0][1].obj
            out = []
            todo = []
            for s, b in self.split(st, self.inst(v, cls)):
                (todo if b else out).append((s, b))
            pats = [(n, q) for n, q in zip(p.kwd_attrs, p.kwd_patterns)]
            if p.patterns:
                if len(p.patterns) == 1 and cls in (str, int, bool, list, dict, tuple, set, float, bytes):
                    res = []
                    for s, _ in todo:
                        res.extend(self.pattern(p.patterns[0], v, s))
                    return out + res
                pats = list(zip(cls.__match_args__, p.patterns)) + pats
            for n, q in pats:
                nxt = []
                for s, _ in todo:
                    for s2, a in self.getattr(s, v, n):
                        if isinstance(a, Raised):
                            out.append((s2, False))
                            continue
                        for s3, ok in self.pattern(q, a, s2):
                            (nxt if ok else out).append((s3, ok))
                todo = nxt
            return out + [(s, True) for s, _ in todo]
        if isinstance(p, ast.MatchMapping) and p.rest is None and z3.is_expr(v):
            out, todo = [], []
            for s, b in self.split(st, self.inst(v, collections.abc.Mapping)):
                (todo if b else out).append((s, b))
            for kx, q in zip(p.keys, p.patterns):
                nxt = []
                for s, _ in todo:
                    k = self.toV(self.ev(kx, s)[0][1], s)
                    m = self.sel(s, "dct", acc("R", v))
                    for s2, b in self.split(s, mhas(m, k)):
                        if not b:
                            out.append((s2, False))
                            continue
                        for s3, ok in self.pattern(q, mget(m, k), s2):
                            (nxt if ok else out).append((s3, ok))
                todo = nxt
            return out + [(s, True) for s, _ in todo]
        if isinstance(p, ast.MatchSequence):
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("star pattern")
            n = len(p.patterns)
            if isinstance(v, Tup):
                if len(v.vals) != n:
                    return [(st, False)]
                elems = lambda s: v.vals
                cond = T
            else:
                cond = And(self.is_list(v), Eq(qlen(self.sel(st, "lst", acc("R", v))), z3.IntVal(n)))
                elems = lambda s: [qat(self.sel(s, "lst", acc("R", v)), i) for i in range(n)]
            out, todo = [], []
            for s, b in self.split(st, cond):
                (todo if b else out).append((s, b))
            for i, q in enumerate(p.patterns):
                nxt = []
                for s, _ in todo:
                    for s2, ok in self.pattern(q, elems(s)[i], s):
                        (nxt if ok else out).append((s2, ok))
                todo = nxt
            return out + [(s, True) for s, _ in todo]
        raise Unsupported(f"pattern {type(p).__name__}")

    # ---- merging
    def merge_states(self, states):
        groups = []
        for s in states:
            for g in groups:
                if self._mergeable(g[0], s):
                    g.append(s)
                    break
            else:
                groups.append([s])
        return [g[0] if len(g) == 1 else self._merge(g) for g in groups]

    def _mergeable(self, a, b):
        for k in set(a.env) | set(b.env):
            if k not in a.env or k not in b.env:
                continue
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                continue
            if z3.is_expr(x) and z3.is_expr(y):
                continue
            if x is UNDEF or y is UNDEF or isinstance(x, Maybe) and (isinstance(y, Maybe) or z3.is_expr(y)) or isinstance(y, Maybe) and z3.is_expr(x):
                continue
            if isinstance(x, K) and isinstance(y, K) and x.obj is y.obj:
                continue
            if isinstance(x, Exc) and isinstance(y, Exc):
                continue
            return False
        return True

    def _merge(self, g):
        n = 0
        while all(len(s.pc) > n for s in g) and all(s.pc[n] is g[0].pc[n] or s.pc[n].eq(g[0].pc[n]) for s in g):
            n += 1
        conds = [And(*s.pc[n:]) for s in g]
        new = g[0].fork()
        new.pc = g[0].pc[:n]
        tree, d = _tree([(list(s.pc[n:]), i) for i, s in enumerate(g)])

        def choose(vals):
            return _pick(tree, vals)
        if not is_true(d):
            new.pc = new.pc + (d,)
        for k in set().union(*[s.env for s in g]):
            vals = [s.env.get(k, UNDEF) for s in g]
            if any(k not in s.env or isinstance(s.env[k], Maybe) for s in g) and all(k not in s.env or isinstance(s.env[k], Maybe) or z3.is_expr(s.env[k]) for s in g) and not k.startswith("$"):
                have = [s.env.get(k) for s in g]
                bound = choose([Fa if x is None else x.c if isinstance(x, Maybe) else T for x in have])
                v = choose([x.v if isinstance(x, Maybe) else x for x in have])
                new.env[k] = Maybe(v, bound)
                continue
            v = vals[-1]
            if all(x is v for x in vals):
                new.env[k] = v
                continue
            if not all(z3.is_expr(x) for x in vals):
                if all(isinstance(x, K) and x.obj is v.obj for x in vals if isinstance(v, K)) and isinstance(v, K):
                    new.env[k] = v
                else:
                    new.env[k] = UNDEF
                continue
            new.env[k] = choose(vals)
        for c in set().union(*[s.heap for s in g]):
            arrs = [self.comp(s, c) for s in g]
            if all(a.eq(arrs[0]) for a in arrs):
                new.heap[c] = arrs[0]
                continue
            new.heap[c] = self.merge_arrays(c, choose, arrs)
        return new

    def merge_arrays(self, c, choose, arrs):
        chains = [_chain(a) for a in arrs]
        base = chains[0][0]
        if not c.startswith("g:") and all(b.eq(base) for b, _ in chains):
            refs = []
            for _, ch in chains:
                for r, _v in ch:
                    if not any(r.eq(x) for x in refs):
                        refs.append(r)
            ok = all(r1.eq(r2) or known_distinct_refs(r1, r2) for r1 in refs for r2 in refs)
            if ok:
                out = base
                for r in refs:
                    vals = []
                    only = True
                    for a, (_b, ch) in zip(arrs, chains):
                        if any(r.eq(x) for x, _ in ch):
                            vals.append(self.sel_(a, c, r))
                        elif fresh_site(r):
                            vals.append(None)  # allocated on the other branch only
                        else:
                            vals.append(self.sel_(a, c, r))
                    out = z3.Store(out, r, choose(vals))
                return out
        return choose(arrs)

    # ---- loops
    def st_For(self, s, st):
        if isinstance(s.iter, ast.GeneratorExp):
            pass

        def f(s0, v):
            def g(s1, it):
                if isinstance(it, list):
                    return [(s1, it)]
                return [(s1, it)]
            return self.lift(self.mk_iter(s0, v), lambda s1, it: self.loop(s, s1, it))
        return self.lift(self.ev(s.iter, st), f)

    def st_While(self, s, st):
        return self.loop(s, st, None)

    def after(self, s, outs):
        """normal completion runs the else clause; break becomes normal."""
        res = []
        for kd, s2, pay in outs:
            if kd == "norm" and s.orelse:
                res.extend(self.block(s.orelse, s2))
            elif kd == "brk":
                res.append(("norm", s2, None))
            else:
                res.append((kd, s2, pay))
        return res

    def loop(self, s, st, it):
        if isinstance(it, list):
            cur, done = [st], []
            for v in it:
                nxt = []
                for c in cur:
                    for o in self.assign(s.target, v, c):
                        for p in (self.block(s.body, o[1]) if o[0] == "norm" else [o]):
                            if p[0] in ("norm", "cont"):
                                nxt.append(p[1])
                            else:
                                done.append(p)
                if self.merge and len(nxt) > 1:
                    nxt = self.merge_states(nxt)
                cur = nxt
            return self.after(s, done + [("norm", c, None) for c in cur])
        return self.after(s, self.summarise(s, st, it))

    def summarise(self, s, st, it):
        outer = list(self.bound)
        j = z3.FreshConst(Int, "j")
        lname = self.name("L")
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        names |= {n.name for b in s.body for n in ast.walk(b) if isinstance(n, (ast.MatchAs,)) and n.name}
        targets = set()
        if it is not None:
            targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        comprehension_local = {n.id for b in s.body for c in ast.walk(b) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        assigned_outside_comp = {n.id for b in s.body for n in _walk_nocomp(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        names = {n for n in names if n in assigned_outside_comp or n not in comprehension_local}
        ghosts = {"g:" + ".".join((st.glb.get("__name__"), n)) for n in names if (st.glb.get("__name__"), n) in self.ghost and self._is_global(n, st)}
        names -= {g.rsplit(".", 1)[1] for g in ghosts}
        if it is None:
            bound_n = self.const(lname + ".N", Int)
        else:
            bound_n = it.n
        base = st.fork()
        state = {}  # key -> (init term, decl, sort)
        optim = {}
        oldonly = set()  # heap components of which only caller objects vary
        untyped = set()  # variables that do not keep the type of their initial value
        wrap = lambda k0, t: {"I": mkI, "S": mkS, "B": mkB}[k0](acc(k0, t))
        for n in sorted(names - targets):
            v = base.env.get(n)
            if v is None or v is UNDEF or isinstance(v, Maybe):
                base.env[n] = UNDEF
                base.env.pop(n)
                continue
            iv = self.toV(v, base)
            if kind(iv) == "R" and (fresh_site(acc("R", iv)) or z3.is_const(acc("R", iv))):
                optim[n] = iv  # presumably never rebound to another object
                base.env[n] = iv
            else:
                state[("v", n)] = iv
        for n in targets:
            base.env.pop(n, None)
        inved = {key: iv.decl().name() for key, iv in state.items() if z3.is_app(iv) and iv.decl().name() in self.callinv}
        self.bound.append(j)
        try:
            for _round in range(10):
                mark = next(_sites)
                decls, typed = {}, {}
                body_st = base.fork()
                for key, init in state.items():
                    nm = f"{lname}.{_keyname(key)}" + (".c" if key in inved else "")
                    d = z3.Function(nm, *[Int] * len(self.bound), init.sort())
                    decls[key] = d
                    if key in inved:  # always the result of a call: never an object made here
                        OPAQUE_RESULT.add(nm)
                    else:
                        UNOLD.add(nm)
                    cur = d(*self.bound)
                    if key[0] == "v":
                        k0 = kind(init)
                        if k0 in ("I", "S", "B") and key not in untyped:
                            cur = wrap(k0, cur)
                            typed[key] = k0
                        body_st.env[key[1]] = cur
                    elif key[2] is None:
                        body_st.heap[key[1]] = _restore(cur, base.heap[key[1]]) if key in oldonly else cur
                for key in state:
                    if key[0] == "h" and key[2] is not None:
                        body_st.heap[key[1]] = sto(self.comp(body_st, key[1]), key[2], decls[key](*self.bound))
                entry_heap = dict(body_st.heap)
                pc0 = len(body_st.pc)
                facts = [0 <= j, j < bound_n]
                for key in inved:
                    facts.append(self.callinv[inved[key]](decls[key](*self.bound), body_st))
                if it is not None and it.guard is not None:
                    facts.append(it.guard(j))
                body_st.pc = body_st.pc + tuple(facts)
                loops_mark = len(self.loops)
                if it is not None:
                    outs = []
                    for o in self.assign(s.target, it.elem(j), body_st):
                        outs.extend(self.block(s.body, o[1]) if o[0] == "norm" else [o])
                    condf = None
                else:
                    outs = []
                    for s2, v in self.ev(s.test, body_st):
                        if isinstance(v, Raised):
                            outs.append(("raise", s2, v.exc))
                            continue
                        for s3, b in self.split(s2, self.truth(v, s2)):
                            if b:
                                outs.extend(self.block(s.body, s3))
                outs = [("norm" if k == "cont" else k, a, b) for k, a, b in outs]
                rebound = [n for n, iv in optim.items() if any(
                    o[0] == "norm" and not (z3.is_expr(o[1].env.get(n)) and o[1].env[n].eq(iv)) for o in outs)]
                if rebound:
                    for n in rebound:
                        state[("v", n)] = optim.pop(n)
                    del self.loops[loops_mark:]
                    continue
                # the type of a variable is kept by every path (induction)
                loose = [key for key, k0 in typed.items() if any(
                    o[0] == "norm" and o[1].env.get(key[1], UNDEF) is not UNDEF and kind(self.toV(o[1].env[key[1]], o[1])) != k0 for o in outs)]
                for key, nm in list(inved.items()):
                    if any(o[0] == "norm" and not self._calls(o[1].env.get(key[1], UNDEF), nm, decls[key]) for o in outs):
                        loose.append(key)
                        del inved[key]
                if loose:
                    untyped.update(loose)
                    del self.loops[loops_mark:]
                    continue
                # which heap cells were modified?
                new = self._modified(outs, entry_heap, state, mark, j, decls, oldonly)
                if not new:
                    break
                del self.loops[loops_mark:]
                for key in new:
                    if key[2] is None:
                        for k2 in [k for k in state if k[0] == "h" and k[1] == key[1] and not (key in oldonly and k[2] is not None and fresh_site(k[2]))]:
                            del state[k2]
                        state[key] = self.comp(base, key[1])
                        if key in oldonly:
                            state[key] = _strip(state[key])
                    else:
                        state[key] = self.sel(base, key[1], key[2])
            else:
                raise Unsupported("loop state does not stabilise")
        finally:
            self.bound.pop()

        # drop unmodified / dead-in locals
        def mentions(t, d):
            return _mentions(t, d.name())
        norm = [o for o in outs if o[0] == "norm"]
        exits = [o for o in outs if o[0] != "norm"]
        nexts = []
        for kd, s2, _ in norm:
            nx = {}
            for key in state:
                if key[0] == "v":
                    v = s2.env.get(key[1], UNDEF)
                    nx[key] = None if v is UNDEF else self.toV(v, s2)
                    if key in typed and nx[key] is not None and nx[key].eq(wrap(typed[key], decls[key](*outer, j))):
                        nx[key] = decls[key](*outer, j)
                elif key[2] is None:
                    nx[key] = self.comp(s2, key[1])
                    if key in oldonly:
                        nx[key] = _strip(nx[key])
                else:
                    nx[key] = self.sel(s2, key[1], key[2])
            nexts.append(nx)
        args_j = outer + [j]
        dead = set()
        for key in list(state):
            cur = decls[key](*args_j)
            if all(nx[key] is not None and nx[key].eq(cur) for nx in nexts):
                dead.add(("same", key))
                continue
            if key[0] == "v":
                used = any(mentions(f, decls[key]) for o in outs for f in o[1].pc[pc0:]) or any(
                    mentions(nx[k2], decls[key]) for nx in nexts for k2 in state if nx[k2] is not None and (k2 != key or True)) or any(
                    self._pay_mentions(o, decls[key]) for o in exits)
                # values returned at exits
                if not used and not any(_state_mentions(o[1], decls[key], key) for o in exits):
                    dead.add(("temp", key))
                if any(nx[key] is None for nx in nexts):
                    if used:
                        raise Unsupported("loop local may be unset")
                    dead.add(("temp", key))
        same = {k for w, k in dead if w == "same"}
        temp = {k for w, k in dead if w == "temp"} - same
        live = [k for k in state if k not in same and k not in temp]
        # families for objects allocated in the body
        fam_sub = self._families(outs, mark, outer, j, entry_heap)
        def fs(t):
            return subst(t, fam_sub) if fam_sub else t
        # "same" state: replace by its initial value
        same_sub = []
        for key in same:
            same_sub.append((decls[key](*args_j), state[key]))
        def rw(t):
            t = fs(t)
            return subst(t, same_sub) if same_sub else t
        if fam_sub or same_sub:
            for (c, nm), (formals, term) in list(self.fam.items()):
                if nm in self._newfams:
                    self.fam[(c, nm)] = (formals, rw(term))
            self._rw_recs(loops_mark, rw)
        paths = []
        for (kd, s2, _), nx in zip(norm, nexts):
            paths.append(([rw(f) for f in s2.pc[pc0 + 2:]], {k: rw(nx[k]) for k in live}))
        exit_pcs = [[rw(f) for f in o[1].pc[pc0 + 2:]] for o in exits]
        L = Loop(name=lname, outer=outer, j=j, n=bound_n, guard=it.guard if it is not None else None,
                 state={k: decls[k] for k in live}, init={k: state[k] for k in live}, paths=paths,
                 exits=[(o[0], p) for o, p in zip(exits, exit_pcs)], flat={}, pc0=tuple(st.pc), line=s.lineno, whl=it is None, e=None, oldonly=oldonly)
        # list accumulators
        for key in live:
            self._flat(L, key, args_j)
        self.loops.append(L)
        for key in live:
            self._provenance(L, key, outer, j)
        res = []

        def final_val(key, n):
            if key in L.flat:
                return qcat(L.init[key], L.flat[key](*(outer + [n]))) if not z3.is_int_value(n) or n.as_long() else L.init[key]
            return L.state[key](*(outer + [n])) if key not in typed else wrap(typed[key], L.state[key](*(outer + [n])))
        exitany = lambda t: Or(*[And(*[subst(f, [(j, t)]) for f in p]) for p in exit_pcs])
        k = z3.FreshConst(Int, "k")
        rng = lambda t, hi: And(0 <= t, t < hi)
        gd = (lambda t: it.guard(t)) if it is not None and it.guard is not None else (lambda t: T)
        # the state function is defined by the body
        # normal completion
        fin = st.fork()
        self._finish(fin, L, final_val, bound_n, temp, same, targets, names, state)
        facts = [bound_n >= 0]
        done = z3.Function(f"{lname}.done", *[Int] * len(outer), Bool)(*outer) if outer else z3.Const(f"{lname}.done", Bool)
        if exit_pcs:
            facts.append(done)
            ex = exitany(k)
            if not is_false(ex):
                facts.append(_forall(k, Implies(rng(k, bound_n), Not(ex))))
        fin.pc = fin.pc + tuple(f for f in facts if not is_true(f))
        if it is None:
            for s2, v in self.ev(s.test, fin):
                if isinstance(v, Raised):
                    res.append(("raise", s2, v.exc))
                    continue
                for s3, b in self.split(s2, self.truth(v, s2)):
                    if not b:
                        res.append(("norm", s3, None))
        else:
            if self.feasible(fin.pc):
                res.append(("norm", fin, None))
        # exits
        if exits:
            e = self.const(lname + ".e", Int)
            L.e = e
            cover = []
            noexit = _forall(k, Implies(rng(k, e), Not(exitany(k)))) if len(outs) > 1 else T
            for (kd, s2, pay), p in zip(exits, exit_pcs):
                x = s2.fork()
                sub = [(j, e)]
                def sb(t):
                    return subst(rw(t), sub)
                pcs = [sb(f) for f in s2.pc[pc0:]]
                extra = [] if len(outs) == 1 else [noexit]
                x.pc = st.pc + tuple(f for f in pcs + extra + [Not(done)] if not is_true(f))
                x.env = {n: self._subval(v, sb) for n, v in s2.env.items()}
                x.heap = {}
                for c, a in s2.heap.items():
                    x.heap[c] = sb(a) if not a.eq(st.heap.get(c, self.heap0.get(c, a))) else a
                # accumulators: state function -> prefix value
                x = self._prefix(x, L, outer, e, final_val)
                pay = self._subval(pay, sb) if pay is not None else None
                pay = self._subval(pay, lambda t: self._prefix_term(t, L, outer, e, final_val)) if pay is not None else None
                if self.feasible(x.pc):
                    res.append((kd, x, pay))
                cover.append(And(*[sb(f) for f in p]))
            if it is not None:
                comp = _forall(k, Implies(rng(k, bound_n), Not(exitany(k))))
                ax = Implies(bound_n >= 0, Or(comp, And(0 <= e, e < bound_n, Or(*cover), _forall(k, Implies(rng(k, e), Not(exitany(k)))))))
                dn = Implies(And(bound_n >= 0, comp), done)
                if outer:
                    ax = z3.ForAll(outer, ax)
                    dn = z3.ForAll(outer, dn)
                self.axioms.append(({e.decl().name()}, ax))
                self.axioms.append(({done.decl().name()}, dn))
        return res

    def _provenance(self, L, key, outer, j):
        """Every entry of a mapping built by the loop was there before or comes
        from some iteration (inductive: all paths only add entries)."""
        d = L.state[key]
        if d.range() != M or L.exits and L.whl:
            return
        cur = d(*outer, j)
        alts = []
        k = z3.FreshConst(V, "k")
        t, w = z3.FreshConst(Int, "t"), None
        wf = z3.Function(f"{L.name}.w.{_keyname(key)}", *[Int] * len(outer), Int, V, Int)
        w = wf(*outer, t, k)
        here = mget_(d(*outer, t), k)
        for pcs, nx in L.paths:
            m, puts = nx[key], []
            while z3.is_app(m) and m.decl().name() == "mput":
                puts.append((m.arg(1), m.arg(2)))
                m = m.arg(0)
            if not m.eq(cur):
                return
            for kk, vv in puts:
                alts.append(And(*[subst(f, [(j, w)]) for f in pcs], k == subst(kk, [(j, w)]), here == subst(vv, [(j, w)])))
        g = L.guard(w) if L.guard is not None else T
        init = L.init[key]
        was = Fa if init.eq(mnil) else And(mhas(init, k), here == mget(init, k))
        ax = Implies(And(0 <= t, t <= L.n, mhas_(d(*outer, t), k)), Or(was, And(0 <= w, w < t, g, Or(*alts))))
        ax = z3.ForAll(list(outer) + [t, k], ax, patterns=[mhas_(d(*outer, t), k)])
        self.axioms.append(({d.name()}, ax))

    def _calls(self, v, nm, d):
        return z3.is_expr(v) and z3.is_app(v) and (v.decl().name() == nm or v.decl().name() == d.name())

    def _rw_recs(self, mark, rw):
        for L in self.loops[mark:]:
            L.paths = [([rw(f) for f in p], {k: rw(v) for k, v in nx.items()}) for p, nx in L.paths]
            L.exits = [(kd, [rw(f) for f in p]) for kd, p in L.exits]
            L.init = {k: rw(v) for k, v in L.init.items()}
            L.n = rw(L.n)
            for key, d in L.flat.items():
                r = QTAB[d.name()]
                if r.elem is not None:
                    r.elem = rw(r.elem)
                if r.paths:
                    r.paths = [([rw(f) for f in p], rw(v)) for p, v in r.paths]

    def _prefix_term(self, t, L, outer, e, final_val):
        sub = [(L.state[k](*(outer + [e])), final_val(k, e)) for k in L.flat]
        return subst(t, sub) if sub else t

    def _prefix(self, x, L, outer, e, final_val):
        if not L.flat:
            return x
        f = lambda t: self._prefix_term(t, L, outer, e, final_val)
        x.env = {n: self._subval(v, f) for n, v in x.env.items()}
        x.heap = {c: f(a) for c, a in x.heap.items()}
        return x

    def _finish(self, fin, L, final_val, n, temp, same, targets, names, state):
        for key in L.state:
            v = final_val(key, n)
            if key[0] == "v":
                fin.env[key[1]] = v
            elif key[2] is None:
                fin.heap[key[1]] = _restore(v, self.comp(fin, key[1])) if key in L.oldonly else v
        for key in L.state:
            if key[0] == "h" and key[2] is not None:
                self.put(fin, key[1], key[2], final_val(key, n))
        for key in temp:
            fin.env[key[1]] = UNDEF
        for nme in targets:
            fin.env[nme] = UNDEF
        for nme in names:
            if nme not in fin.env:
                fin.env[nme] = UNDEF

    def _subval(self, v, f):
        if z3.is_expr(v):
            return f(v)
        if isinstance(v, Tup):
            return Tup([self._subval(x, f) for x in v.vals])
        if isinstance(v, Exc):
            e = Exc(v.cls, [self._subval(x, f) for x in v.args], v.cause)
            return e
        if isinstance(v, Mapped):
            return Mapped(self._subval(v.m, f), v.what)
        if isinstance(v, BM):
            return BM(self._subval(v.recv, f), v.name)
        if isinstance(v, It):
            return UNDEF
        return v

    def _pay_mentions(self, o, d):
        out = []

        def f(t):
            out.append(_mentions(t, d.name()))
            return t
        if o[2] is not None:
            self._subval(o[2], f)
        return any(out)

    def _modified(self, outs, entry, state, mark, j, decls, oldonly):
        """heap cells changed by the body that are not yet loop state."""
        new = []
        for kd, s2, _ in outs:
            for c, a in s2.heap.items():
                b = entry.get(c, self.heap0.get(c))
                if b is None or a.eq(b):
                    continue
                if c.startswith("g:"):
                    if ("h", c, None) not in state:
                        new.append(("h", c, None))
                    continue
                for r in _changed_refs(a, b):
                    whole = ("h", c, None)
                    if whole in state and whole not in oldonly:
                        continue
                    if r is None:
                        key = whole
                    else:
                        f = fresh_site(r)
                        if f and f[0] > mark:
                            continue
                        inv = not _mentions_any(r, [j] , [d.name() for d in decls.values()]) and not _has_newer(r, mark)
                        key = ("h", c, r) if inv else whole
                        if is_old(r) and (not inv or whole in state):
                            if whole not in state and whole not in new:
                                oldonly.add(whole)
                                new.append(whole)
                            continue
                    if key == whole:
                        oldonly.discard(whole)
                        new[:] = [k for k in new if not (k[0] == "h" and k[1] == c)]
                        state.pop(whole, None)
                        new.append(whole)
                        continue
                    if not any(k[0] == "h" and k[1] == c and (k[2] is key[2] or (k[2] is not None and key[2] is not None and k[2].eq(key[2]))) for k in list(state) + new):
                        new.append(key)
        return new

    def _families(self, outs, mark, outer, j, entry):
        """objects allocated in iteration j: ref!k -> fam!k(outer.., j)"""
        found = {}
        self._newfams = set()

        def scan(t):
            for x in _consts(t):
                f = FRESH.get(x.decl().name())
                if f and f[0] > mark:
                    found[x.decl().name()] = x
        for kd, s2, pay in outs:
            for f in s2.pc:
                scan(f)
            for v in s2.env.values():
                self._subval(v, lambda t: (scan(t), t)[1])
            for c, a in s2.heap.items():
                if a is not entry.get(c):
                    scan(a)
            if pay is not None:
                self._subval(pay, lambda t: (scan(t), t)[1])
        for (c, nm), (formals, term) in list(self.fam.items()):
            pass
        sub = []
        formals = outer + [j]
        for nm, x in found.items():
            fnm = "fam:" + nm
            d = z3.Function(fnm, *[Int] * len(formals), Int)
            FRESH[fnm] = (next(_sites), FRESH[nm][1])
            sub.append((x, d(*formals)))
            self._newfams.add(fnm)
        for nm, x in found.items():
            fnm = "fam:" + nm
            for c in sorted({c for _, s2, _ in outs for c in s2.heap}):
                if c.startswith("g:"):
                    continue
                vals = []
                for kd, s2, _ in outs:
                    a = s2.heap.get(c)
                    if a is None:
                        continue
                    ch = _chain_all(a)
                    if any(r.eq(x) for r in ch):
                        vals.append((s2, self.sel_(a, c, x)))
                if vals:
                    t = vals[-1][1]
                    for s2, v in vals[-2::-1]:
                        if not v.eq(t):
                            t = If(And(*s2.pc), v, t)
                    self.fam[(c, fnm)] = (formals, subst(t, sub))
        return sub

    def _flat(self, L, key, args_j):
        """recognise  acc := acc ++ part  with part independent of the loop state"""
        if key[0] != "h" or key[1] != "lst" or key[2] is None:
            return
        names = [d.name() for d in L.state.values()]
        cur = L.state[key](*args_j)
        parts = []
        for pcs, nx in L.paths:
            p = _peel(nx[key], cur)
            if p is None or _mentions_names(p, [L.state[key].name()]):
                return
            if any(_mentions_names(f, [L.state[key].name()]) for f in pcs):
                return
            for k2, v2 in nx.items():
                if k2 != key and _mentions_names(v2, [L.state[key].name()]):
                    return
            parts.append((pcs, p))
        for kd, p in L.exits:
            if any(_mentions_names(f, [L.state[key].name()]) for f in p):
                return
        nm = L.name + ".q"
        if nm in QTAB:
            nm += str(len(L.flat))
        N = z3.FreshConst(Int, "N")
        formals = L.outer + [N]
        d = z3.Function(nm, *[Int] * len(formals), Q)
        ones = [litq(p) for _, p in parts]
        if L.guard is None and parts and all(o is not None and len(o) == 1 for o in ones):
            el = ones[-1][0]
            for (pcs, _), o in list(zip(parts, ones))[-2::-1]:
                if not o[0].eq(el):
                    el = If(And(*pcs), o[0], el)
            QTAB[nm] = QRec(formals, N, L.j, elem=el, paths=parts, loop=L, key=key)
        else:
            QTAB[nm] = QRec(formals, N, L.j, paths=parts, loop=L, key=key)
            g = []
            self.axioms.append(({nm}, z3.ForAll(formals, z3.Implies(N <= 0, d(*formals) == qnil), patterns=[d(*formals)])))
        L.flat[key] = d


_sites = itertools.count(1)


def _free_var(f):
    """name of a havocked text that decides the condition f"""
    if z3.is_not(f):
        f = f.arg(0)
    if z3.is_eq(f):
        for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
            if z3.is_const(x) and x.decl().name().startswith("msg!") and not _mentions(y, x.decl().name()):
                return x.decl().name()
    return None


def _tree(items):
    """Decision tree over the path conditions of merged states, and the condition
    under which one of them applies."""
    if len(items) == 1:
        return items[0][1], And(*items[0][0])
    if all(sx for sx, _ in items):
        x = items[0][0][0]
        if z3.is_not(x):
            x = x.arg(0)  # the same tree whichever side comes first
        pos = [(sx[1:], i) for sx, i in items if sx[0].eq(x)]
        nx = Not(x)
        neg = [(sx[1:], i) for sx, i in items if sx[0].eq(nx)]
        if len(pos) == len(items):
            t, d = _tree(pos)
            return t, And(x, d)
        if len(neg) == len(items):
            t, d = _tree(neg)
            return t, And(nx, d)
        if len(pos) + len(neg) == len(items):
            t1, d1 = _tree(pos)
            t2, d2 = _tree(neg)
            return (x, t1, t2), If(x, d1, d2)
    t, d = items[-1][1], And(*items[-1][0])
    for sx, i in items[-2::-1]:
        cd = And(*sx)
        t, d = (cd, i, t), Or(cd, d)
    return t, d


def _pick(tree, vals):
    """the value of a merged location (None: does not exist on that side)"""
    if not isinstance(tree, tuple):
        return vals[tree]
    a, b = _pick(tree[1], vals), _pick(tree[2], vals)
    if a is None or b is None:
        return b if a is None else a
    return If(tree[0], a, b)


def _forall(k, body):
    if is_true(body):
        return T
    return z3.ForAll([k], body)


def _keyname(key):
    return key[1] if key[0] == "v" else f"{key[1]}@{key[2].get_id() if key[2] is not None else 'all'}"


def _key(o):
    if isinstance(o, types.BuiltinMethodType) and not isinstance(o.__self__, types.ModuleType) and o.__self__ is not None:
        return f"{type(o.__self__).__module__}.{type(o.__self__).__qualname__}.{o.__name__}"
    return f"{getattr(o, '__module__', None) or 'builtins'}.{getattr(o, '__qualname__', type(o).__qualname__)}"


def _addi(x, y):
    if z3.is_int_value(x) and z3.is_int_value(y):
        return z3.IntVal(x.as_long() + y.as_long())
    return x + y


def _cmpi(x, y, op):
    if z3.is_int_value(x) and z3.is_int_value(y):
        return z3.BoolVal(x.as_long() < y.as_long() if op == "Lt" else x.as_long() <= y.as_long())
    return (x < y) if op == "Lt" else (x <= y)


def litq(q):
    """Elements of a syntactically known sequence, else None."""
    out = []
    while True:
        if q.eq(qnil):
            return out[::-1]
        if z3.is_app(q) and q.decl().name() == "qapp":
            out.append(q.arg(1))
            q = q.arg(0)
            continue
        return None


def _peel(q, cur):
    """part such that q == cur ++ part"""
    if q.eq(cur):
        return qnil
    if z3.is_app(q) and q.decl().name() == "qapp":
        p = _peel(q.arg(0), cur)
        return None if p is None else qapp(p, q.arg(1))
    if z3.is_app(q) and q.decl().name() == "qcat":
        p = _peel(q.arg(0), cur)
        return None if p is None else qcat(p, q.arg(1))
    if z3.is_app_of(q, z3.Z3_OP_ITE):
        a, b = _peel(q.arg(1), cur), _peel(q.arg(2), cur)
        return None if a is None or b is None else If(q.arg(0), a, b)
    return None


def _chain(a):
    """base array and the stored (ref, value) pairs, latest first."""
    out = []
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        out.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
    return a, out


def _strip(a):
    """the array without the cells of objects allocated by the code."""
    if z3.is_app_of(a, z3.Z3_OP_STORE):
        b = _strip(a.arg(0))
        return b if fresh_site(a.arg(1)) else z3.Store(b, a.arg(1), a.arg(2))
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return If(a.arg(0), _strip(a.arg(1)), _strip(a.arg(2)))
    return a


def _restore(a, b):
    """array a with the cells of allocated objects as in b."""
    cells = []
    while z3.is_app_of(b, z3.Z3_OP_STORE):
        if fresh_site(b.arg(1)):
            cells.append((b.arg(1), b.arg(2)))
        b = b.arg(0)
    for r, v in reversed(cells):
        a = sto(a, r, v)
    return a


def _chain_all(a):
    out, todo = [], [a]
    while todo:
        a = todo.pop()
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            out.append(a.arg(1))
            todo.append(a.arg(0))
        elif z3.is_app_of(a, z3.Z3_OP_ITE):
            todo += [a.arg(1), a.arg(2)]
    return out


def _changed_refs(a, b):
    """references stored to between array b and array a (None: anything)."""
    out, seen = [], set()

    def go(x):
        if x.eq(b) or x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_STORE):
            out.append(x.arg(1))
            go(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            go(x.arg(1))
            go(x.arg(2))
        else:
            bb, _ = _chain(b)
            if not x.eq(bb):
                out.append(None)
    bb, stores = _chain(b)
    go(a)
    # cells that hold the same value as before are not modified
    return out


def _consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            todo.extend(x.children())
    return out


def _mentions(t, name):
    return name in symbols([t])


def _mentions_names(t, names):
    s = symbols([t])
    return any(n in s for n in names)


def _mentions_any(t, consts, names):
    s = symbols([t])
    return any(n in s for n in names) or any(c.decl().name() in s for c in consts)


def _has_newer(t, mark):
    return any(FRESH.get(n, (0,))[0] > mark for n in symbols([t]))


def _state_mentions(s, d, key):
    for n, v in s.env.items():
        if z3.is_expr(v) and _mentions(v, d.name()) and ("v", n) != key:
            return True
    for a in s.heap.values():
        if _mentions(a, d.name()):
            return True
    return False


def _walk_nocomp(b):
    todo = [b]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and isinstance(c, ast.comprehension):
                todo.append(c.iter)
                todo.extend(c.ifs)
                continue
            todo.append(c)
