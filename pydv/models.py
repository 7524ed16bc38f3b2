"""Models of the builtins and library functions used by cwl-utils."""
from __future__ import annotations

import builtins
import collections.abc
import inspect

from .logic import *  # noqa: F401,F403
from .logic import z3, NONE, TRUE, FALSE, T, Fa
from .sym import (K, Tup, BM, Clo, It, Exc, Raised, Mapped, Unsupported, litq, attrs_of, _addi, UNDEF, constobj)

FUNCS = {}


def model(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def _cls_of(v):
    if isinstance(v, Tup):
        return tuple(c for x in v.vals for c in (_cls_of(x) if isinstance(_cls_of(x), tuple) else (_cls_of(x),)))
    if isinstance(v, K):
        o = v.obj
        import types
        if isinstance(o, types.UnionType):
            return tuple(o.__args__)
        return o
    raise Unsupported("isinstance class")


@model("builtins.isinstance")
def _isinstance(ex, st, args, kw):
    return [(st, mkB(ex.inst(args[0], _cls_of(args[1]))))]


@model("builtins.issubclass")
def _issubclass(ex, st, args, kw):
    return [(st, mkB(issubclass(args[0].obj, _cls_of(args[1]))))]


@model("builtins.len")
def _len(ex, st, args, kw):
    v = args[0]
    if isinstance(v, Tup):
        return [(st, mkI(len(v.vals)))]
    if isinstance(v, K):
        return [(st, mkI(len(v.obj)))]
    if isinstance(v, Mapped):
        return [(st, mkI(qlen(mkeys(ex.sel(st, "dct", acc("R", v.m))))))]
    return ex.cases(st, [
        (ex.is_list(v), lambda s: [(s, mkI(qlen(ex.sel(s, "lst", acc("R", v)))))]),
        (Or(ex.is_dict(v), ex.is_set(v)), lambda s: [(s, mkI(qlen(mkeys(ex.sel(s, "dct", acc("R", v))))))]),
        (isk("S", v), lambda s: [(s, mkI(_slen(acc("S", v))))]),
        (isk("Y", v), lambda s: [(s, mkI(_slen(acc("Y", v))))]),
    ], lambda s: ex.exc(s, TypeError))


def _slen(t):
    if z3.is_string_value(t):
        return z3.IntVal(len(pystr_of(t)))
    return z3.Length(t)


@model("builtins.bool")
def _bool(ex, st, args, kw):
    return [(st, mkB(ex.truth(args[0], st)) if args else FALSE)]


@model("builtins.str")
def _str(ex, st, args, kw):
    if not args:
        return [(st, mkS(""))]
    v = args[0]
    if z3.is_expr(v) and kind(v) == "S":
        return [(st, v)]
    return [(st, mkS(ex.strof(v, st)))]


@model("builtins.repr")
def _repr(ex, st, args, kw):
    return [(st, mkS(z3.Function("repr", V, Str)(ex.reify(args[0], st))))]


@model("builtins.int")
def _int(ex, st, args, kw):
    v = ex.toV(args[0], st)
    f = z3.Function("intof", Str, Int)
    okf = z3.Function("isint", Str, Bool)

    def fs(s):
        t = acc("S", v)
        if z3.is_string_value(t):
            try:
                return [(s, mkI(int(pystr_of(t))))]
            except ValueError:
                return ex.exc(s, ValueError)
        # digit strings have their decimal value
        digits = z3.InRe(t, z3.Plus(z3.Range("0", "9")))
        ex.axioms.append(({"intof"}, _int_axiom(f, okf)))
        return ex.guard(s, okf(t), lambda s2: [(s2, mkI(f(t)))], ValueError)
    return ex.cases(st, [(isk("I", v), lambda s: [(s, v)]), (isk("S", v), fs)], lambda s: ex.exc(s, TypeError))


_ia = []


def _int_axiom(f, okf):
    if not _ia:
        x = z3.Const("x", Str)
        _ia.append(z3.ForAll([x], z3.Implies(z3.InRe(x, z3.Plus(z3.Range("0", "9"))), z3.And(okf(x), f(x) == z3.StrToInt(x), f(x) >= 0)), patterns=[f(x)]))
    return _ia[0]


@model("builtins.hasattr")
def _hasattr(ex, st, args, kw):
    v, n = args[0], lit(args[1])
    if isinstance(v, K):
        return [(st, mkB(hasattr(v.obj, n)))]
    if isinstance(v, Exc):
        return [(st, mkB(hasattr(v.cls, n)))]
    r = acc("R", v)
    from .sym import _PKIND
    c = Or(And(isk("R", v), ex.reftag(r, lambda c: n in attrs_of(c) or hasattr(c, n))), *[isk(k, v) for p, k in _PKIND if hasattr(p, n)])
    return [(st, mkB(c))]


@model("builtins.getattr")
def _getattr(ex, st, args, kw):
    n = lit(args[1])
    out = []
    for s, v in ex.getattr(st, args[0], n):
        if isinstance(v, Raised) and len(args) > 2 and issubclass(v.exc.cls, AttributeError):
            out.append((s, args[2]))
        else:
            out.append((s, v))
    return out


@model("builtins.setattr")
def _setattr(ex, st, args, kw):
    return [(s, Raised(p) if k == "raise" else NONE) for k, s, p in ex.setattr(st, args[0], lit(args[1]), args[2])]


@model("builtins.id")
def _id(ex, st, args, kw):
    raise Unsupported("id()")


@model("builtins.callable")
def _callable(ex, st, args, kw):
    return [(st, mkB(isinstance(args[0], (Clo, BM)) or isinstance(args[0], K) and callable(args[0].obj)))]


@model("builtins.type")
def _type(ex, st, args, kw):
    v = args[0]
    if isinstance(v, Exc):
        return [(st, K(v.cls))]
    if isinstance(v, Tup):
        return [(st, K(tuple))]
    if isinstance(v, K):
        return [(st, K(type(v.obj)))]
    k = kind(v)
    from .sym import _PKIND
    if k and k != "R":
        return [(st, K({kk: p for p, kk in _PKIND}[k]))]
    r = acc("R", v)
    f = fresh_site(r)
    if f:
        return [(st, K(f[1]))]
    out, rest = [], st
    for p, kk in _PKIND:
        nxt = None
        for s, b in ex.split(rest, isk(kk, v)):
            if b:
                out.append((s, K(p)))
            else:
                nxt = s
        if nxt is None:
            return out
        rest = nxt
    for c in ex.universe:
        nxt = None
        for s, b in ex.split(rest, ex.reftag(r, lambda k, c=c: k is c)):
            if b:
                out.append((s, K(c)))
            else:
                nxt = s
        if nxt is None:
            return out
        rest = nxt
    return out


@model("builtins.enumerate")
def _enumerate(ex, st, args, kw):
    start = lit(args[1]) if len(args) > 1 else (lit(kw["start"]) if "start" in kw else 0)

    def f(s, it):
        if isinstance(it, list):
            return [(s, Tup([Tup([mkI(start + i), x]) for i, x in enumerate(it)]))]
        if it.guard is not None:
            raise Unsupported("enumerate of a filter")
        return [(s, It(it.n, lambda j: Tup([mkI(_addi(j, z3.IntVal(start))) if start else mkI(j), it.elem(j)])))]
    return ex.bind(ex.mk_iter(st, args[0]), f)


@model("builtins.zip")
def _zip(ex, st, args, kw):
    out = [(st, [])]
    for a in args:
        out = ex.bind(out, lambda s, l: ex.bind(ex.mk_iter(s, a), lambda s2, it: [(s2, l + [it])]))

    def f(s, its):
        if all(isinstance(i, list) for i in its):
            return [(s, Tup([Tup(list(t)) for t in zip(*its)]))]
        n, el = None, []
        for i in its:
            if isinstance(i, list):
                q = qlist([ex.toV(x, s) for x in i])
                i = It(z3.IntVal(len(i)), lambda j, q=q: qat(q, j))
            if i.guard is not None:
                raise Unsupported("zip of a filter")
            n = i.n if n is None else If(i.n < n, i.n, n)
            el.append(i.elem)
        return [(s, It(n, lambda j: Tup([e(j) for e in el])))]
    return ex.bind(out, f)


@model("builtins.range")
def _range(ex, st, args, kw):
    vs = [acc("I", ex.toV(a, st)) for a in args]
    if len(vs) == 1:
        lo, hi = z3.IntVal(0), vs[0]
    elif len(vs) == 2:
        lo, hi = vs
    else:
        raise Unsupported("range step")
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        return [(st, Tup([mkI(i) for i in range(lo.as_long(), hi.as_long())]))] if hi.as_long() - lo.as_long() <= 40 else [
            (st, It(z3.IntVal(max(0, hi.as_long() - lo.as_long())), lambda j: mkI(_addi(j, lo))))]
    n = If(hi >= lo, hi - lo if not (z3.is_int_value(lo) and lo.as_long() == 0) else hi, z3.IntVal(0))
    return [(st, It(n, lambda j: mkI(_addi(j, lo) if not (z3.is_int_value(lo) and lo.as_long() == 0) else j)))]


@model("builtins.list")
def _list(ex, st, args, kw):
    if not args:
        s = st.fork()
        return [(s, ex.newlist(s, qnil))]

    def f(s, q):
        s = s.fork()
        return [(s, ex.newlist(s, q))]
    return ex.bind(ex.toQ(st, args[0]), f)


@model("builtins.tuple")
def _tuple(ex, st, args, kw):
    if not args:
        return [(st, Tup([]))]

    def f(s, q):
        vs = litq(q)
        if vs is not None:
            return [(s, Tup(vs))]
        s = s.fork()
        return [(s, ex.newlist(s, q, tuple))]
    return ex.bind(ex.toQ(st, args[0]), f)


@model("builtins.iter")
def _iter(ex, st, args, kw):
    return [(st, args[0])]


@model("builtins.set", "builtins.frozenset")
def _set(ex, st, args, kw):
    s = st.fork()
    if not args:
        return [(s, ex.newdict(s, mnil, set))]
    out = ex.bind(ex.toQ(st, args[0]), lambda s2, q: _set_of(ex, s2, q))
    return out


TOSET = z3.Function("toset", Q, M)


def _set_of(ex, s, q):
    s = s.fork()
    vs = litq(q)
    if vs is not None:
        m = mnil
        for v in vs:
            m = mput(m, v, NONE)
    else:
        m = TOSET(ex.reifyQ(q, s))
        x, k = z3.Const("x", Q), z3.Const("k", V)
        ex.axioms.append(({"toset"}, z3.ForAll([x, k], mhas_(TOSET(x), k) == qhas_(x, k), patterns=[mhas_(TOSET(x), k)])))
    return [(s, ex.newdict(s, m, set))]


@model("builtins.dict")
def _dict(ex, st, args, kw):
    if args:
        d = args[0]
        if not z3.is_expr(d):
            raise Unsupported("dict(iterable)")

        def f(s):
            s = s.fork()
            m = ex.sel(s, "dct", acc("R", d))
            for k, v in kw.items():
                m = mput(m, mkS(k), ex.toV(v, s))
            return [(s, ex.newdict(s, m))]
        def bad(s):
            raise Unsupported("dict(iterable)")
        return ex.cases(st, [(ex.is_dict(d), f)], bad)
    s = st.fork()
    m = mnil
    for k, v in kw.items():
        m = mput(m, mkS(k), ex.toV(v, s))
    return [(s, ex.newdict(s, m))]


@model("ruamel.yaml.comments.CommentedMap")
def _cmap(ex, st, args, kw):
    from ruamel.yaml.comments import CommentedMap

    s = st.fork()
    if args:
        raise Unsupported("CommentedMap(x)")
    return [(s, ex.newdict(s, mnil, CommentedMap))]


@model("ruamel.yaml.comments.CommentedSeq")
def _cseq(ex, st, args, kw):
    from ruamel.yaml.comments import CommentedSeq

    s = st.fork()
    if args:
        raise Unsupported("CommentedSeq(x)")
    return [(s, ex.newlist(s, qnil, CommentedSeq))]


@model("builtins.any", "builtins.all")
def _anyall(ex, st, args, kw):
    raise Unsupported("any/all of a value")


def _quantall(ex, st, args, is_any):
    def f(s, it):
        if isinstance(it, list):
            ts = [ex.truth(x, s) for x in it]
            return [(s, mkB(Or(*ts) if is_any else And(*ts)))]
        raise Unsupported("any/all of a symbolic list")
    return ex.bind(ex.mk_iter(st, args[0]), f)


FUNCS["builtins.any"] = lambda ex, st, a, k: _quantall(ex, st, a, True)
FUNCS["builtins.all"] = lambda ex, st, a, k: _quantall(ex, st, a, False)


@model("builtins.max", "builtins.min")
def _max(ex, st, args, kw):
    raise Unsupported("max/min")


def _minmax(which):
    def f(ex, st, args, kw):
        from . import pylib

        if set(kw) - {"key"}:
            raise Unsupported("max default")
        it = args[0] if len(args) == 1 else Tup(list(args))
        return ex.call_fn(st, getattr(pylib, which), [it, kw.get("key", NONE)], {})
    return f


FUNCS["builtins.max"], FUNCS["builtins.min"] = _minmax("max1"), _minmax("min1")


@model("builtins.sorted")
def _sorted(ex, st, args, kw):
    if kw or len(args) != 1:
        raise Unsupported("sorted with key")

    def f(s, q):
        ex.assumed.add("sorted: a function of the sequence, no exception")
        s = s.fork()
        return [(s, ex.newlist(s, z3.Function("sorted", Q, Q)(ex.reifyQ(q, s))))]
    return ex.bind(ex.toQ(st, args[0]), f)


@model("builtins.reversed")
def _reversed(ex, st, args, kw):
    def f(s, q):
        vs = litq(q)
        s = s.fork()
        if vs is not None:
            return [(s, ex.newlist(s, qlist(vs[::-1])))]
        r = z3.Function("reversed", Q, Q)
        x, i = z3.Const("x", Q), z3.Int("i")
        if not any("reversed" in n for n, _ in ex.axioms if isinstance(n, (set, frozenset))):
            ex.axioms.append(({"reversed"}, z3.And(z3.ForAll([x], qlen_(r(x)) == qlen_(x), patterns=[r(x)]),
                                                   z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < qlen_(x)), qat_(r(x), i) == qat_(x, qlen_(x) - 1 - i)), patterns=[qat_(r(x), i)]))))
        return [(s, ex.newlist(s, r(ex.reifyQ(q, s))))]
    return ex.bind(ex.toQ(st, args[0]), f)


@model("builtins.map")
def _map(ex, st, args, kw):
    f, it = args

    def g(s, i):
        if isinstance(i, list):
            return ex.bind(_seqcalls(ex, s, f, i), lambda s2, vs: [(s2, Tup(vs))])
        return _asloop(ex, s, "[fun$(x$) for x$ in seq$]", f, it)
    return ex.bind(ex.mk_iter(st, it), g)


def _asloop(ex, st, text, f, it):
    """the call as the list comprehension it stands for"""
    import ast

    e = ast.parse(text.replace("$", "_pydv"), mode="eval").body
    env0 = st.env
    s = st.fork()
    s.env = dict(env0, fun_pydv=f, seq_pydv=it)
    out = []
    for s2, v in ex.ev(e, s):
        s2 = s2.fork()
        s2.env = dict(env0)
        out.append((s2, v))
    return out


@model("builtins.filter")
def _filter(ex, st, args, kw):
    f, it = args
    if isinstance(f, K) and f.obj is None:
        return _asloop(ex, st, "[x$ for x$ in seq$ if x$]", f, it)
    return _asloop(ex, st, "[x$ for x$ in seq$ if fun$(x$)]", f, it)


def _seqcalls(ex, st, f, vals):
    out = [(st, [])]
    for v in vals:
        out = ex.bind(out, lambda s, l: ex.bind(ex.call(s, f, [v], {}), lambda s2, r: [(s2, l + [r])]))
    return out


DC = z3.Function("dcopy", V, V)
OPAQUE_RESULT.add("dcopy")


@model("copy.deepcopy")
def _deepcopy(ex, st, args, kw):
    v = args[0]
    if isinstance(v, (K, Tup)):
        return [(st, v)]
    k = kind(v)
    if k not in (None, "R"):
        return [(st, v)]
    ex.axioms.append(({"dcopy"}, _dc_axiom()))
    ex.assumed.add("copy.deepcopy: equal structure, no sharing")
    t = DC(ex.reify(v, st))
    return [(st, If(isk("R", v), t, v) if k is None else t)]


_dca = []


def _dc_axiom():
    if not _dca:
        x = z3.Const("x", V)
        _dca.append(z3.ForAll([x], z3.And(z3.Implies(V.is_R(x), z3.And(V.is_R(DC(x)), tag(V.r(DC(x))) == tag(V.r(x)))), z3.Implies(z3.Not(V.is_R(x)), DC(x) == x)), patterns=[DC(x)]))
    return _dca[0]


@model("copy.copy")
def _copy(ex, st, args, kw):
    v = args[0]
    if isinstance(v, (K, Tup)):
        return [(st, v)]

    def fl(s):
        s = s.fork()
        return [(s, ex.newlist(s, ex.sel(s, "lst", acc("R", v))))]

    def fd(s):
        s = s.fork()
        return [(s, ex.newdict(s, ex.sel(s, "dct", acc("R", v))))]
    def other(s):
        if ex.entails(s, Not(isk("R", v))):
            return [(s, v)]
        raise Unsupported("copy.copy of an object")
    return ex.cases(st, [(ex.is_list(v), fl), (ex.is_dict(v), fd)], other)


# ------------------------------------------------------------------ methods
def replaced(t, old, new):
    """t.replace(old, new); a single character is replaced in each part of a concatenation"""
    if kind(old) == "S" and z3.is_string_value(acc("S", old)) and len(pystr_of(acc("S", old))) == 1 and kind(new) == "S":
        o = pystr_of(acc("S", old))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return z3.Concat(*[replaced(x, old, new) for x in t.children()])
        if z3.is_string_value(t):
            if z3.is_string_value(acc("S", new)):
                return strval(pystr_of(t).replace(o, pystr_of(acc("S", new))))
            if o not in pystr_of(t):
                return t
    return z3.Function("str.replace/2", Str, V, V, Str)(t, old, new)


def str_method(ex, st, v, name, args, kw):
    t = acc("S", v)

    def S(i):
        a = ex.toV(args[i], st)
        return a
    if all(_islit(x) for x in [v] + list(args)) and not kw and name not in ("join", "format"):
        r = getattr(lit(v), name)(*[lit(ex.toV(a, st)) for a in args])
        if isinstance(r, (str, bool, int)):
            return [(st, ex.pyval(r))]
        if isinstance(r, list):
            s = st.fork()
            return [(s, ex.newlist(s, qlist([mkS(x) for x in r])))]
        if isinstance(r, tuple):
            return [(st, Tup([mkS(x) for x in r]))]
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        if isinstance(args[0], Tup):
            return [(st, mkB(Or(*[f(acc("S", x), t) for x in args[0].vals])))]
        if len(args) > 1:
            raise Unsupported("startswith offset")
        a = S(0)
        return ex.guard(st, isk("S", a), lambda s: [(s, mkB(f(acc("S", a), t)))], TypeError)
    if name == "join":
        def g(s, q):
            vs = litq(q)
            if vs is not None and all(kind(x) == "S" for x in vs):
                out = None
                for x in vs:
                    out = acc("S", x) if out is None else ex.sconcat(ex.sconcat(out, t), acc("S", x))
                return [(s, mkS(out if out is not None else ""))]
            if z3.is_app(q) and q.decl().name() == "str.split/1" and kind(q.arg(1)) == "S":
                # the pieces between all occurrences, joined: the occurrences replaced
                sep = acc("S", q.arg(1))
                if z3.is_string_value(sep) and pystr_of(sep):
                    return [(s, mkS(replaced(q.arg(0), mkS(sep), mkS(t))))]
            return [(s, mkS(z3.Function("strjoin", Str, Q, Str)(t, ex.reifyQ(q, s))))]
        return ex.bind(ex.toQ(st, args[0]), g)
    if name in ("split", "rsplit"):
        vs = [ex.reify(a, st) for a in args] + [ex.reify(kw[k], st) for k in sorted(kw)]
        if name == "rsplit" and len(vs) < 2:
            name = "split"  # without a limit both cut at every separator
        f = z3.Function(f"str.{name}" + "".join(":" + k for k in sorted(kw)) + f"/{len(vs)}", Str, *[V] * len(vs), Q)
        q = f(t, *vs)
        if args and _islit(args[0]) and lit(ex.toV(args[0], st)):
            sep = lit(ex.toV(args[0], st))
            ex.axioms.append(({f.name()}, _split_axiom(f, vs, sep, name)))
        s = st.fork()
        return [(s, ex.newlist(s, q))]
    if name in ("partition", "rpartition"):
        a = S(0)
        fs = [z3.Function(f"str.{name}{i}", Str, Str, Str) for i in range(3)]
        return [(st, Tup([mkS(f(t, acc("S", a))) for f in fs]))]
    if name == "format":
        f = z3.Function("strformat" + str(len(args)) + "".join(":" + k for k in sorted(kw)), Str, *[V] * (len(args) + len(kw)), Str)
        return [(st, mkS(f(t, *[ex.reify(a, st) for a in args], *[ex.reify(kw[k], st) for k in sorted(kw)])))]
    if name == "find" and len(args) in (1, 2):
        off = acc("I", S(1)) if len(args) == 2 else z3.IntVal(0)
        return [(st, mkI(z3.IndexOf(t, acc("S", S(0)), off)))]
    if name == "replace" and len(args) == 2:
        return [(st, mkS(replaced(t, *[ex.reify(a, st) for a in args])))]
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "capitalize", "title", "expandtabs", "casefold"):
        if name == "removeprefix" or name == "removesuffix":
            a = acc("S", S(0))
            n, k = z3.Length(t), z3.Length(a)
            if name == "removeprefix":
                return [(st, mkS(If(z3.PrefixOf(a, t), z3.SubString(t, k, n - k), t)))]
            return [(st, mkS(If(z3.SuffixOf(a, t), z3.SubString(t, 0, n - k), t)))]
        f = z3.Function(f"str.{name}/{len(args)}", Str, *[V] * len(args), Str)
        return [(st, mkS(f(t, *[ex.reify(a, st) for a in args])))]
    if name in ("isdigit", "isalpha", "isalnum", "isspace", "isidentifier", "islower", "isupper"):
        return [(st, mkB(z3.Function(f"str.{name}", Str, Bool)(t)))]
    if name in ("count", "index", "rfind", "rindex"):
        return [(st, mkI(z3.Function(f"str.{name}/{len(args)}", Str, *[V] * len(args), Int)(t, *[ex.reify(a, st) for a in args])))]
    if name == "encode":
        return [(st, mkY(z3.Function("str.encode" + str(len(args)), Str, *[V] * len(args), Str)(t, *[ex.reify(a, st) for a in args])))]
    raise Unsupported(f"str.{name}")


def _split_axiom(f, vs, sep, name):
    """the pieces: at least one, no piece contains the separator when unlimited."""
    x = z3.Const("x", Str)
    q = f(x, *vs)
    S = z3.StringVal
    parts = [qlen_(q) >= 1, z3.Implies(z3.Not(z3.Contains(x, strval(sep))), z3.And(qlen_(q) == 1, qat_(q, 0) == V.S(x)))]
    i = z3.Int("i")
    e = qat_(q, i)
    return z3.And(z3.ForAll([x], z3.And(*parts), patterns=[q]), z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < qlen_(q)), V.is_S(e)), patterns=[e]))


def _islit(v):
    if not z3.is_expr(v):
        return False
    try:
        lit(v)
        return True
    except KeyError:
        return False


def bytes_method(ex, st, v, name, args, kw):
    if name == "decode":
        f = z3.Function("bytes.decode", Str, *[V] * (len(args) + len(kw)), Str)
        ok = z3.Function("bytes.decodable", Str, *[V] * (len(args) + len(kw)), Bool)
        xs = [acc("Y", v)] + [ex.reify(a, st) for a in args] + [ex.reify(kw[k], st) for k in sorted(kw)]
        return ex.guard(st, ok(*xs), lambda s: [(s, mkS(f(*xs)))], UnicodeDecodeError)
    raise Unsupported(f"bytes.{name}")


def list_method(ex, st, v, name, args, kw):
    r = acc("R", v)
    q = ex.sel(st, "lst", r)
    st = st.fork()
    if name == "append":
        x = ex.toV(args[0], st)
        ex.put(st, "lst", r, qapp(q, x))
        return [(st, NONE)]
    if name == "extend":
        def f(s, q2):
            s = s.fork()
            ex.put(s, "lst", r, qcat(ex.sel(s, "lst", r), q2))
            return [(s, NONE)]
        return ex.bind(ex.toQ(st, args[0]), f)
    if name == "copy":
        return [(st, ex.newlist(st, q))]
    if name == "clear":
        ex.put(st, "lst", r, qnil)
        return [(st, NONE)]
    if name == "insert":
        i = acc("I", ex.toV(args[0], st))
        x = ex.toV(args[1], st)
        if z3.is_int_value(i) and i.as_long() == 0:
            vs = litq(q)
            ex.put(st, "lst", r, qlist([x] + vs) if vs is not None else qcat(qlist([x]), q))
            return [(st, NONE)]
        raise Unsupported("insert")
    if name == "pop":
        n = qlen(q)

        def ok(s):
            s = s.fork()
            if not args:
                vs = litq(q)
                if vs:
                    ex.put(s, "lst", r, qlist(vs[:-1]))
                else:
                    ex.put(s, "lst", r, qsub(q, z3.IntVal(0), n - 1))
                return [(s, qat(q, _addi(n, z3.IntVal(-1))))]
            i = acc("I", ex.toV(args[0], s))
            if z3.is_int_value(i) and i.as_long() == 0:
                vs = litq(q)
                ex.put(s, "lst", r, qlist(vs[1:]) if vs else qsub(q, z3.IntVal(1), n))
                return [(s, qat(q, 0))]
            raise Unsupported("pop index")
        return ex.guard(st, n > 0, ok, IndexError)
    if name in ("index", "count"):
        raise Unsupported(f"list.{name}")
    raise Unsupported(f"list.{name}")


def dict_method(ex, st, v, name, args, kw):
    r = acc("R", v)
    m = ex.sel(st, "dct", r)
    if name == "get":
        k = ex.keyof(args[0], st)
        d = args[1] if len(args) > 1 else NONE
        h = mhas(m, k)
        if z3.is_expr(d):
            return [(st, If(h, mget(m, k), d))]
        out = []
        for s, b in ex.split(st, h):
            out.append((s, mget(m, k) if b else d))
        return out
    if name in ("items", "keys", "values"):
        return [(st, Mapped(v, name))]
    st = st.fork()
    if name == "pop":
        k = ex.keyof(args[0], st)
        out = []
        for s, b in ex.split(st, mhas(m, k)):
            if b:
                s = s.fork()
                ex.put(s, "dct", r, mdel(m, k))
                out.append((s, mget(m, k)))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                out.extend(ex.exc(s, KeyError))
        return out
    if name == "setdefault":
        k = ex.keyof(args[0], st)
        d = ex.toV(args[1] if len(args) > 1 else NONE, st)
        out = []
        for s, b in ex.split(st, mhas(m, k)):
            if b:
                out.append((s, mget(m, k)))
            else:
                s = s.fork()
                ex.put(s, "dct", r, mput(m, k, d))
                out.append((s, d))
        return out
    if name == "update":
        def f(s, d):
            s = s.fork()
            mm = ex.sel(s, "dct", r)
            if d is not None:
                if not z3.is_expr(d):
                    raise Unsupported("update(iterable)")
                d2 = ex.sel(s, "dct", acc("R", d))
                ks = litq(mkeys(d2))
                if ks is not None:
                    for k in ks:
                        mm = mput(mm, k, mget(d2, k))
                else:
                    mm = mupd(mm, d2)
            for k, x in kw.items():
                mm = mput(mm, mkS(k), ex.toV(x, s))
            ex.put(s, "dct", r, mm)
            return [(s, NONE)]
        if not args:
            return f(st, None)
        d = args[0]
        if isinstance(d, K) and isinstance(d.obj, dict):
            st = st.fork()
            mm = mnil
            for k, x in d.obj.items():
                mm = mput(mm, ex.toV(ex.pyval(k), st), ex.toV(ex.pyval(x), st))
            d = ex.newdict(st, mm)

        def bad(s):
            raise Unsupported("update(iterable)")
        return ex.cases(st, [(ex.is_dict(d), lambda s: f(s, d))], bad)
    if name == "copy":
        return [(st, ex.newdict(st, m))]
    if name == "clear":
        ex.put(st, "dct", r, mnil)
        return [(st, NONE)]
    raise Unsupported(f"dict.{name}")


def set_method(ex, st, v, name, args, kw):
    r = acc("R", v)
    st = st.fork()
    m = ex.sel(st, "dct", r)
    if name == "add":
        ex.put(st, "dct", r, mput(m, ex.keyof(args[0], st), NONE))
        return [(st, NONE)]
    if name in ("discard", "remove"):
        ex.put(st, "dct", r, mdel(m, ex.keyof(args[0], st)))
        return [(st, NONE)]
    if name == "update":
        d = args[0]
        if z3.is_expr(d):
            def merge(s):
                ex.put(s, "dct", r, mupd(m, ex.sel(s, "dct", acc("R", d))))
                return [(s, NONE)]

            def chars(s):  # the elements of any other iterable: an arbitrary function of it
                ex.put(s, "dct", r, mupd(m, z3.Function("elements", V, M)(ex.reify(d, s))))
                return [(s, NONE)]
            return ex.cases(st, [(Or(ex.is_set(d), ex.is_dict(d)), merge), (Or(isk("S", d), isk("Y", d), isk("R", d)), chars)], lambda s: ex.exc(s, TypeError))
    raise Unsupported(f"set.{name}")


# ---------------------------------------------------------------------- regex
def _re(fname):
    def f(ex, st, args, kw):
        import re as _re_

        ex.assumed.add("re: matching is a deterministic function of pattern and text")
        if kw or len(args) != 2:
            raise Unsupported(f"re.{fname} with flags")
        p = ex.reify(args[0], st)
        t = ex.toV(args[1], st)
        return ex.guard(st, isk("S", t), lambda s: [(s, _match(ex, fname, p, acc("S", t)))], TypeError)
    return f


def _match(ex, fname, p, t):
    import re as _re_
    from .sym import tagid

    ok = z3.Function(f"re.{fname}?", V, Str, Bool)(p, t)
    OPAQUE_RESULT.add(f"re.{fname}")
    r = z3.Function(f"re.{fname}", V, Str, Int)(p, t)
    x, y = z3.Const("x", V), z3.Const("y", Str)
    ap = z3.Function(f"re.{fname}", V, Str, Int)(x, y)
    ex.axioms.append(({f"re.{fname}"}, z3.ForAll([x, y], tag(ap) == tagid(_re_.Match), patterns=[ap])))
    return If(ok, mkR(r), NONE)


for _n in ("match", "search", "fullmatch"):
    FUNCS[f"re.{_n}"] = _re(_n)


def _pattern(fname):
    def f(ex, st, args, kw):
        import re as _re_

        o = getattr(args[0], "obj", None)
        if not isinstance(o, _re_.Pattern) or not isinstance(o.pattern, str):
            raise Unsupported("pattern")
        extra = o.flags & ~_re_.UNICODE
        return FUNCS[f"re.{fname}"](ex, st, [mkS(strval((f"(?{int(extra)})" if extra else "") + o.pattern))] + list(args[1:]), kw)
    return f


for _n in ("match", "search", "fullmatch"):
    FUNCS[f"re.Pattern.{_n}"] = _pattern(_n)


def _pos(fname):
    def f(ex, st, args, kw):
        vs = [ex.reify(a, st) for a in args]
        nm = f"re.{fname}{len(vs) - 1}"
        OPAQUE_RESULT.add(nm)
        g = z3.Function(nm, *[V] * len(vs), Int)
        xs = [z3.Const(f"x{i}", V) for i in range(len(vs))]
        ex.axioms.append(({nm}, z3.ForAll(xs, g(*xs) >= 0, patterns=[g(*xs)])))
        return [(st, mkI(g(*vs)))]
    return f


FUNCS["re.Match.end"], FUNCS["re.Match.start"] = _pos("end"), _pos("start")


@model("re.Match.group")
def _group(ex, st, args, kw):
    vs = [ex.reify(a, st) for a in args[1:]]
    OPAQUE_RESULT.add(f"re.group{len(vs)}")
    ex.assumed.add("re: every group used took part in the match")
    return [(st, mkS(z3.Function(f"re.group{len(vs)}", V, *[V] * len(vs), Str)(ex.reify(args[0], st), *vs)))]


@model("re.sub")
def _sub(ex, st, args, kw):
    if kw or len(args) != 3 or not z3.is_expr(args[1]):
        raise Unsupported("re.sub")
    vs = [ex.reify(a, st) for a in args]
    return ex.guard(st, isk("S", vs[2]), lambda s: [(s, mkS(z3.Function("re.sub", V, V, V, Str)(*vs)))], TypeError)


def with_model(ex, v):
    return WITH.get(type(v))


WITH = {}


def _arg(which):
    def f(ex, st, args, kw):
        def g(s, q):
            ex.assumed.add("max/min: an index of the key sequence, a function of the keys; comparison does not fail")
            fn = z3.Function(which, Q, Int)
            x = z3.Const("q", Q)
            ex.axioms.append(({which}, z3.ForAll([x], z3.Implies(qlen_(x) > 0, z3.And(0 <= fn(x), fn(x) < qlen_(x))), patterns=[fn(x)])))
            t = fn(ex.reifyQ(q, s))
            return [(s.assume(And(t >= 0, t < qlen(q))), mkI(t))]
        return ex.bind(ex.toQ(st, args[0]), g)
    return f


FUNCS["pydv.pylib.argmax"], FUNCS["pydv.pylib.argmin"] = _arg("argmax"), _arg("argmin")
