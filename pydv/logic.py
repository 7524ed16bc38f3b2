"""Sorts, smart constructors and background axioms.

Every Python value is a term of the datatype V.  Heap objects are references
(Int); their contents live in heap components, which are z3 arrays from
references to

  * Q  - finite sequences of V (list / tuple / generator contents), or
  * M  - finite maps V -> V with an insertion-ordered key sequence (dict; for a
         set only the keys matter), or
  * V  - the value of one attribute.

Q and M are uninterpreted sorts with Dafny-style axioms (below); the smart
constructors evaluate eagerly whatever is syntactically determined, so that the
axioms are only needed for symbolic remainders.
"""
from . import __name__ as _pkg  # noqa: F401  (sets sys.path)
import z3

V = z3.Datatype("V")
V.declare("Nn")
V.declare("B", ("b", z3.BoolSort()))
V.declare("I", ("i", z3.IntSort()))
V.declare("S", ("s", z3.StringSort()))
V.declare("Y", ("y", z3.StringSort()))  # bytes
V.declare("F", ("f", z3.IntSort()))  # float, opaque
V.declare("R", ("r", z3.IntSort()))
V = V.create()
Q = z3.DeclareSort("Q")
M = z3.DeclareSort("M")
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()

NONE = V.Nn
TRUE = V.B(z3.BoolVal(True))
FALSE = V.B(z3.BoolVal(False))
T = z3.BoolVal(True)
Fa = z3.BoolVal(False)

qlen_ = z3.Function("qlen", Q, Int)
qat_ = z3.Function("qat", Q, Int, V)
qnil = z3.Const("qnil", Q)
qapp_ = z3.Function("qapp", Q, V, Q)
qcat_ = z3.Function("qcat", Q, Q, Q)
qupd_ = z3.Function("qupd", Q, Int, V, Q)
qsub_ = z3.Function("qsub", Q, Int, Int, Q)
qhas_ = z3.Function("qhas", Q, V, Bool)
qidx_ = z3.Function("qidx", Q, V, Int)

mhas_ = z3.Function("mhas", M, V, Bool)
mget_ = z3.Function("mget", M, V, V)
mput_ = z3.Function("mput", M, V, V, M)
mdel_ = z3.Function("mdel", M, V, M)
mupd_ = z3.Function("mupd", M, M, M)
mnil = z3.Const("mnil", M)
mkeys_ = z3.Function("mkeys", M, Q)
mkidx_ = z3.Function("mkidx", M, V, Int)

tag = z3.Function("tag", Int, Int)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def Not(a):
    if is_true(a):
        return Fa
    if is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out, seen = [], set()
    for x in _flat(xs):
        if is_false(x):
            return Fa
        if is_true(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return Fa
    if not out:
        return T
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out, seen = [], set()
    for x in _flat(xs):
        if is_true(x):
            return T
        if is_false(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return T
    if not out:
        return Fa
    return out[0] if len(out) == 1 else z3.Or(*out)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        elif isinstance(x, bool):
            yield z3.BoolVal(x)
        else:
            yield x


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return T
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
        if is_true(a):
            return Or(c, b)
        if is_false(a):
            return And(Not(c), b)
        if is_false(b):
            return And(c, a)
        if is_true(b):
            return Or(Not(c), a)
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return T
    da, db = _ctor(a), _ctor(b)
    if da and db:
        if da != db:
            return Fa
        if da == "Nn":
            return T
        return Eq(a.arg(0), b.arg(0))
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if z3.is_string_value(a) and z3.is_string_value(b):
        return z3.BoolVal(a.as_string() == b.as_string())
    if a.sort() == V:
        # look through if-then-else of constructors
        if z3.is_app_of(a, z3.Z3_OP_ITE) and db and _ite_ctor(a):
            return If(a.arg(0), Eq(a.arg(1), b), Eq(a.arg(2), b))
        if z3.is_app_of(b, z3.Z3_OP_ITE) and da and _ite_ctor(b):
            return If(b.arg(0), Eq(a, b.arg(1)), Eq(a, b.arg(2)))
    if a.sort() == Bool:
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return Not(b)
        if is_false(b):
            return Not(a)
    if a.sort() == Int and known_distinct_refs(a, b):
        return Fa
    return a == b


def _ite_ctor(a, depth=6):
    if depth == 0:
        return False
    for k in (1, 2):
        x = a.arg(k)
        if _ctor(x):
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE) and _ite_ctor(x, depth - 1):
            continue
        return False
    return True


_CT = ("Nn", "B", "I", "S", "Y", "F", "R")


def _ctor(t):
    if t.sort() != V or not z3.is_app(t):
        return None
    n = t.decl().name()
    return n if n in _CT and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else None


def kind(t):
    """The constructor name of a V term, when syntactically known."""
    c = _ctor(t)
    if c:
        return c
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = kind(t.arg(1)), kind(t.arg(2))
        return a if a == b else None
    return None


_ACC = {"B": V.b, "I": V.i, "S": V.s, "Y": V.y, "F": V.f, "R": V.r}
_REC = {"Nn": V.is_Nn, "B": V.is_B, "I": V.is_I, "S": V.is_S, "Y": V.is_Y, "F": V.is_F, "R": V.is_R}


def isk(k, t):
    c = _ctor(t)
    if c:
        return z3.BoolVal(c == k)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = isk(k, t.arg(1)), isk(k, t.arg(2))
        if (is_true(a) or is_false(a)) or (is_true(b) or is_false(b)):
            return If(t.arg(0), a, b)
    return _REC[k](t)


def acc(k, t):
    c = _ctor(t)
    if c == k:
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        ka, kb = kind(t.arg(1)), kind(t.arg(2))
        if ka == k and kb == k:
            return If(t.arg(0), acc(k, t.arg(1)), acc(k, t.arg(2)))
        if ka is not None and ka != k:
            return acc(k, t.arg(2))
        if kb is not None and kb != k:
            return acc(k, t.arg(1))
    return _ACC[k](t)


def mkB(b):
    return V.B(z3.BoolVal(b) if isinstance(b, bool) else b)


def mkI(i):
    return V.I(z3.IntVal(i) if isinstance(i, int) else i)


def mkS(s):
    return V.S(strval(s) if isinstance(s, str) else s)


def mkY(s):
    return V.Y(strval(s) if isinstance(s, str) else s)


def mkR(r):
    return V.R(r)


def strval(s):
    # z3 string literals use \u{..} escapes for anything unusual
    out = []
    for ch in s:
        o = ord(ch)
        if o < 32 or o > 126 or ch == "\\":
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return z3.StringVal("".join(out))


def pystr_of(t):
    """Python string of a z3 string literal."""
    s = t.as_string()
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def is_lit_s(v):
    return _ctor(v) == "S" and z3.is_string_value(v.arg(0))


def lit(v):
    """Python value of a literal V term, or raises KeyError."""
    c = _ctor(v)
    if c == "Nn":
        return None
    if c == "S" and z3.is_string_value(v.arg(0)):
        return pystr_of(v.arg(0))
    if c == "I" and z3.is_int_value(v.arg(0)):
        return v.arg(0).as_long()
    if c == "B" and (is_true(v.arg(0)) or is_false(v.arg(0))):
        return is_true(v.arg(0))
    raise KeyError("not a literal")


# ---------------------------------------------------------------- references
# A reference term is one of
#   ref!k          an object allocated by the code under verification,
#   fam!k(j..)     the object allocated in iteration j of a loop,
#   anything else  an object of the initial heap (or the opaque result of a
#                  contracted call).
fid = z3.Function("fid", Int, Int)  # allocation site, 0 for the initial heap
farg = z3.Function("farg", Int, Int, Int)
FRESH = {}  # decl name -> (site number, class)
_isold = {}
_keep = []


def fresh_site(r):
    """(site, cls) when r is syntactically an allocated reference."""
    if z3.is_app(r):
        return FRESH.get(r.decl().name()) if r.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    return None


def is_old(r):
    """r syntactically denotes an object of the initial heap."""
    k = r.get_id()
    if k in _isold:
        return _isold[k]
    _keep.append(r)
    if z3.is_int_value(r):
        out = True
    elif fresh_site(r):
        out = False
    elif z3.is_app_of(r, z3.Z3_OP_ITE):
        out = is_old(r.arg(1)) and is_old(r.arg(2))
    else:
        out = not _mentions_alloc(r)
    _isold[k] = out
    return out


def _mentions_alloc(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in FRESH or n in UNOLD:
                return True
            if n in OPAQUE_RESULT:
                continue
        todo.extend(x.children())
    return False


UNOLD = set()  # symbols (loop state) whose value may hold allocated references
OPAQUE_RESULT = set()  # contract functions: results live in the opaque heap


def known_distinct_refs(a, b):
    fa, fb = fresh_site(a), fresh_site(b)
    if fa and fb:
        return fa[0] != fb[0]
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() != b.as_long()
    if fa and is_old(b) or fb and is_old(a):
        return True
    return False


_RF = {}


def ref_facts(fs):
    """Distinctness of the allocated references that occur in the formulas."""
    out, ids = [], set()
    for f in fs:
        i = f.get_id()
        if i not in _RF:
            _RF[i] = (f, _ref_facts(f))
        for x in _RF[i][1]:
            if x.get_id() not in ids:
                ids.add(x.get_id())
                out.append(x)
    return out


def _ref_facts(f0):
    out, seen, todo = [], set(), [f0]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in FRESH:
            n = FRESH[t.decl().name()][0]
            if t.num_args() == 0:
                out.append(fid(t) == n)
            elif not _has_var(t):
                out.append(fid(t) == n)
                for i in range(t.num_args()):
                    if t.arg(i).sort() == Int:
                        out.append(farg(t, z3.IntVal(i)) == t.arg(i))
            else:
                bs = [z3.FreshConst(t.arg(i).sort()) for i in range(t.num_args())]
                ap = t.decl()(*bs)
                key = ap.decl().get_id()
                if ("d", key) not in seen:
                    seen.add(("d", key))
                    out.append(z3.ForAll(bs, fid(ap) == n, patterns=[ap]))
        elif t.sort() == Int and t.decl().kind() in (z3.Z3_OP_DT_ACCESSOR,) and not _has_var(t) and is_old(t):
            out.append(fid(t) == 0)
        elif t.sort() == Int and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("old!"):
            out.append(fid(t) == 0)
        todo.extend(t.children())
    return out


_hv = {}


def _has_var(t):
    k = t.get_id()
    if k not in _hv:
        _keep.append(t)
        _hv[k] = z3.is_var(t) or any(_has_var(c) for c in t.children())
    return _hv[k]


# ---------------------------------------------------------------- sequences
def _fn(t, f):
    return z3.is_app(t) and t.decl().eq(f)


# Sequences that come out of loops and comprehensions: decl name -> record with
# .formals, .n and .elem (for maps) or .part (for concatenations).
QTAB = {}


def qrec(q):
    if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return QTAB.get(q.decl().name())
    return None


def inst(rec, q, t, *more):
    ps = [(f, q.arg(i)) for i, f in enumerate(rec.formals)] + list(more)
    return subst(t, ps)


def subst(t, pairs):
    """Replace constants and rebuild through the smart constructors."""
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    memo = {a.get_id(): b for a, b in pairs}
    return _rebuild(t, memo, pairs)


def _rebuild(t, memo, pairs):
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_quantifier(t):
        out = z3.substitute(t, *pairs)
    elif not z3.is_app(t) or t.num_args() == 0:
        out = t
    else:
        ch = [_rebuild(c, memo, pairs) for c in t.children()]
        if all(c.eq(d) for c, d in zip(ch, t.children())):
            out = t
        else:
            out = mk(t, ch)
    memo[k] = out
    _keep.append(t)
    return out


def mk(t, ch):
    """Rebuild an application with new children, simplifying."""
    d = t.decl()
    kd = d.kind()
    if kd == z3.Z3_OP_UNINTERPRETED:
        f = _SMART.get(d.name())
        return f(*ch) if f else d(*ch)
    if kd == z3.Z3_OP_ITE:
        return If(*ch)
    if kd == z3.Z3_OP_AND:
        return And(*ch)
    if kd == z3.Z3_OP_OR:
        return Or(*ch)
    if kd == z3.Z3_OP_NOT:
        return Not(ch[0])
    if kd == z3.Z3_OP_IMPLIES:
        return Implies(*ch)
    if kd == z3.Z3_OP_EQ:
        return Eq(*ch)
    if kd == z3.Z3_OP_SELECT:
        return sel(*ch)
    if kd == z3.Z3_OP_STORE:
        return sto(*ch)
    if kd == z3.Z3_OP_DT_ACCESSOR:
        return acc(d.name().upper(), ch[0])
    if kd in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
        for n, r in _REC.items():
            if r.eq(d):
                return isk(n, ch[0])
        return d(*ch)
    if kd == z3.Z3_OP_ADD and len(ch) == 2 and z3.is_int_value(ch[1]):
        return _plus(ch[0], ch[1].as_long())
    return d(*ch)


def qlen(q, memo=None):
    if memo is None:
        memo = {}
    k = q.get_id()
    if k not in memo:
        memo[k] = _qlen(q, memo)
    return memo[k]


def _qlen(q, memo):
    if q.eq(qnil):
        return z3.IntVal(0)
    r = qrec(q)
    if r is not None and r.elem is not None:
        return inst(r, q, r.n)
    if _fn(q, qapp_):
        return _plus(qlen(q.arg(0), memo), 1)
    if _fn(q, qupd_):
        return qlen(q.arg(0), memo)
    if _fn(q, qcat_):
        a, b = qlen(q.arg(0), memo), qlen(q.arg(1), memo)
        if z3.is_int_value(b):
            return _plus(a, b.as_long())
        return a + b
    if z3.is_app_of(q, z3.Z3_OP_ITE):
        a, b = qlen(q.arg(1), memo), qlen(q.arg(2), memo)
        return If(q.arg(0), a, b)
    return qlen_(q)


def _plus(t, k):
    if z3.is_int_value(t):
        return z3.IntVal(t.as_long() + k)
    return t + k


def qat(q, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    if _fn(q, qapp_):
        n = qlen(q.arg(0))
        e = Eq(i, n)
        if is_true(e):
            return q.arg(1)
        if is_false(e):
            return qat(q.arg(0), i)
    if _fn(q, qupd_):
        e = Eq(i, q.arg(1))
        if is_true(e):
            return q.arg(2)
        if is_false(e):
            return qat(q.arg(0), i)
    if z3.is_app_of(q, z3.Z3_OP_ITE):
        return If(q.arg(0), qat(q.arg(1), i), qat(q.arg(2), i))
    r = qrec(q)
    if r is not None and r.elem is not None:
        return inst(r, q, r.elem, (r.j, i))
    return qat_(q, i)


def qapp(q, v):
    return qapp_(q, v)


def qcat(a, b):
    if a.eq(qnil):
        return b
    if b.eq(qnil):
        return a
    if _fn(b, qapp_):
        return qapp(qcat(a, b.arg(0)), b.arg(1))
    return qcat_(a, b)


def qlist(vs):
    q = qnil
    for v in vs:
        q = qapp(q, v)
    return q


def qupd(q, i, v):
    return qupd_(q, i, v)


def qsub(q, lo, hi):
    return qsub_(q, lo, hi)


def qhas(q, v):
    if q.eq(qnil):
        return Fa
    if _fn(q, qapp_):
        return Or(qhas(q.arg(0), v), Eq(q.arg(1), v))
    if z3.is_app_of(q, z3.Z3_OP_ITE):
        return If(q.arg(0), qhas(q.arg(1), v), qhas(q.arg(2), v))
    return qhas_(q, v)


def mhas(m, k):
    if m.eq(mnil):
        return Fa
    if _fn(m, mput_):
        return Or(Eq(m.arg(1), k), mhas(m.arg(0), k))
    if _fn(m, mdel_):
        return And(Not(Eq(m.arg(1), k)), mhas(m.arg(0), k))
    if _fn(m, mupd_):
        return Or(mhas(m.arg(1), k), mhas(m.arg(0), k))
    if z3.is_app_of(m, z3.Z3_OP_ITE):
        return If(m.arg(0), mhas(m.arg(1), k), mhas(m.arg(2), k))
    return mhas_(m, k)


def mget(m, k):
    if _fn(m, mput_):
        e = Eq(m.arg(1), k)
        if is_true(e):
            return m.arg(2)
        return If(e, m.arg(2), mget(m.arg(0), k))
    if _fn(m, mdel_):
        e = Eq(m.arg(1), k)
        if is_false(e):
            return mget(m.arg(0), k)
    if _fn(m, mupd_):
        return If(mhas(m.arg(1), k), mget(m.arg(1), k), mget(m.arg(0), k))
    if z3.is_app_of(m, z3.Z3_OP_ITE):
        return If(m.arg(0), mget(m.arg(1), k), mget(m.arg(2), k))
    return mget_(m, k)


def mput(m, k, v):
    return mput_(m, k, v)


def mdel(m, k):
    return mdel_(m, k)


def mupd(a, b):
    if b.eq(mnil):
        return a
    return mupd_(a, b)


def mkeys(m):
    if m.eq(mnil):
        return qnil
    if _fn(m, mput_):
        h = mhas(m.arg(0), m.arg(1))
        ks = mkeys(m.arg(0))
        if is_true(h):
            return ks
        if is_false(h):
            return qapp(ks, m.arg(1))
        return If(h, ks, qapp(ks, m.arg(1)))
    if z3.is_app_of(m, z3.Z3_OP_ITE):
        return If(m.arg(0), mkeys(m.arg(1)), mkeys(m.arg(2)))
    return mkeys_(m)


# -------------------------------------------------------------------- arrays
def sel(a, r):
    if z3.is_app_of(a, z3.Z3_OP_STORE):
        e = Eq(a.arg(1), r)
        if is_true(e):
            return a.arg(2)
        if is_false(e):
            return sel(a.arg(0), r)
        return If(e, a.arg(2), sel(a.arg(0), r))
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return If(a.arg(0), sel(a.arg(1), r), sel(a.arg(2), r))
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
        return a.arg(0)
    return z3.Select(a, r)


def sto(a, r, v):
    if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(r):
        return z3.Store(a.arg(0), r, v)
    return z3.Store(a, r, v)


_SMART = {"qlen": qlen, "qat": qat, "qapp": qapp, "qcat": qcat, "qupd": qupd, "qhas": qhas, "mhas": mhas,
          "mget": mget, "mput": mput, "mupd": mupd, "mkeys": mkeys}


# -------------------------------------------------------------------- axioms
def _axioms():
    q, q2 = z3.Consts("q q2", Q)
    m, m2 = z3.Consts("m m2", M)
    v, w, k, k2 = z3.Consts("v w k k2", V)
    i, j, lo, hi = z3.Ints("i j lo hi")
    FA = z3.ForAll
    ax = {}
    ax["qlen"] = [FA([q], qlen_(q) >= 0, patterns=[qlen_(q)]), qlen_(qnil) == 0]
    ax["qapp"] = [
        FA([q, v], qlen_(qapp_(q, v)) == qlen_(q) + 1, patterns=[qapp_(q, v)]),
        FA([q, v, i], qat_(qapp_(q, v), i) == z3.If(i == qlen_(q), v, qat_(q, i)),
           patterns=[qat_(qapp_(q, v), i)]),
        FA([q, v, i], z3.Implies(z3.And(0 <= i, i < qlen_(q)), qat_(qapp_(q, v), i) == qat_(q, i)),
           patterns=[z3.MultiPattern(qapp_(q, v), qat_(q, i))]),
    ]
    ax["qcat"] = [
        FA([q, q2], qlen_(qcat_(q, q2)) == qlen_(q) + qlen_(q2), patterns=[qcat_(q, q2)]),
        FA([q, q2, i], qat_(qcat_(q, q2), i) == z3.If(i < qlen_(q), qat_(q, i), qat_(q2, i - qlen_(q))),
           patterns=[qat_(qcat_(q, q2), i)]),
        FA([q], qcat_(q, qnil) == q, patterns=[qcat_(q, qnil)]),
        FA([q], qcat_(qnil, q) == q, patterns=[qcat_(qnil, q)]),
        FA([q, q2, v], qcat_(q, qapp_(q2, v)) == qapp_(qcat_(q, q2), v), patterns=[qcat_(q, qapp_(q2, v))]),
    ]
    ax["qupd"] = [
        FA([q, i, v], qlen_(qupd_(q, i, v)) == qlen_(q), patterns=[qupd_(q, i, v)]),
        FA([q, i, v, j], qat_(qupd_(q, i, v), j) == z3.If(i == j, v, qat_(q, j)),
           patterns=[qat_(qupd_(q, i, v), j)]),
    ]
    ax["qsub"] = [
        FA([q, lo, hi], z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= qlen_(q)),
                                   qlen_(qsub_(q, lo, hi)) == hi - lo), patterns=[qsub_(q, lo, hi)]),
        FA([q, lo, hi, i], z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= qlen_(q), 0 <= i, i < hi - lo),
                                      qat_(qsub_(q, lo, hi), i) == qat_(q, lo + i)),
           patterns=[qat_(qsub_(q, lo, hi), i)]),
    ]
    ax["qhas"] = [
        FA([q, v], z3.Implies(qhas_(q, v), z3.And(0 <= qidx_(q, v), qidx_(q, v) < qlen_(q),
                                                  qat_(q, qidx_(q, v)) == v)), patterns=[qhas_(q, v)]),
        FA([q, i, v], z3.Implies(z3.And(0 <= i, i < qlen_(q), qat_(q, i) == v), qhas_(q, v)),
           patterns=[z3.MultiPattern(qat_(q, i), qhas_(q, v))]),
        FA([q, v, w], qhas_(qapp_(q, v), w) == z3.Or(qhas_(q, w), v == w), patterns=[qhas_(qapp_(q, v), w)]),
        FA([q, q2, w], qhas_(qcat_(q, q2), w) == z3.Or(qhas_(q, w), qhas_(q2, w)),
           patterns=[qhas_(qcat_(q, q2), w)]),
        FA([v], z3.Not(qhas_(qnil, v)), patterns=[qhas_(qnil, v)]),
    ]
    ax["mput"] = [
        FA([m, k, v, k2], mhas_(mput_(m, k, v), k2) == z3.Or(k == k2, mhas_(m, k2)),
           patterns=[mhas_(mput_(m, k, v), k2)]),
        FA([m, k, v, k2], mget_(mput_(m, k, v), k2) == z3.If(k == k2, v, mget_(m, k2)),
           patterns=[mget_(mput_(m, k, v), k2)]),
        FA([m, k, v], mkeys_(mput_(m, k, v)) == z3.If(mhas_(m, k), mkeys_(m), qapp_(mkeys_(m), k)),
           patterns=[mkeys_(mput_(m, k, v))]),
    ]
    ax["mdel"] = [
        FA([m, k, k2], mhas_(mdel_(m, k), k2) == z3.And(k != k2, mhas_(m, k2)),
           patterns=[mhas_(mdel_(m, k), k2)]),
        FA([m, k, k2], z3.Implies(k != k2, mget_(mdel_(m, k), k2) == mget_(m, k2)),
           patterns=[mget_(mdel_(m, k), k2)]),
        FA([m, k], qlen_(mkeys_(mdel_(m, k))) == z3.If(mhas_(m, k), qlen_(mkeys_(m)) - 1, qlen_(mkeys_(m))),
           patterns=[mkeys_(mdel_(m, k))]),
    ]
    ax["mupd"] = [
        FA([m, m2, k], mhas_(mupd_(m, m2), k) == z3.Or(mhas_(m, k), mhas_(m2, k)),
           patterns=[mhas_(mupd_(m, m2), k)]),
        FA([m, m2, k], mget_(mupd_(m, m2), k) == z3.If(mhas_(m2, k), mget_(m2, k), mget_(m, k)),
           patterns=[mget_(mupd_(m, m2), k)]),
    ]
    ax["mnil"] = [FA([k], z3.Not(mhas_(mnil, k)), patterns=[mhas_(mnil, k)]), mkeys_(mnil) == qnil]
    ax["mkeys"] = [
        FA([m, i], z3.Implies(z3.And(0 <= i, i < qlen_(mkeys_(m))),
                              z3.And(mhas_(m, qat_(mkeys_(m), i)), mkidx_(m, qat_(mkeys_(m), i)) == i)),
           patterns=[qat_(mkeys_(m), i)]),
        FA([m, k], z3.Implies(mhas_(m, k), z3.And(0 <= mkidx_(m, k), mkidx_(m, k) < qlen_(mkeys_(m)),
                                                  qat_(mkeys_(m), mkidx_(m, k)) == k)),
           patterns=[z3.MultiPattern(mhas_(m, k), mkeys_(m))]),
    ]
    return ax


AXIOMS = _axioms()
_NEED = {
    "qlen": ["qlen"], "qat": ["qlen"], "qnil": ["qlen"], "qapp": ["qlen", "qapp"], "qcat": ["qlen", "qapp", "qcat"],
    "qupd": ["qlen", "qupd"], "qsub": ["qlen", "qsub"], "qhas": ["qlen", "qapp", "qhas"], "mput": ["qlen", "qapp", "mput", "mkeys"],
    "mhas": ["mkeys", "qlen"], "mdel": ["mdel", "mkeys", "qlen"], "mupd": ["mupd"], "mnil": ["mnil", "qlen"],
    "mkeys": ["mkeys", "qlen", "qapp"], "mget": [], "mkidx": ["mkeys"], "qidx": ["qhas"],
}


_SYM = {}


def symbols(fs):
    """All uninterpreted symbol names in formulas."""
    out = set()
    for f in fs:
        i = f.get_id()
        if i not in _SYM:
            _SYM[i] = (f, _symbols(f))
        out |= _SYM[i][1]
    return out


def _symbols(f):
    out, seen, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            for k in range(t.num_patterns()):
                todo.append(t.pattern(k))
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    return out


def axioms_for(fs):
    need = set()
    syms = symbols(fs)
    for s in syms:
        for a in _NEED.get(s, ()):
            need.add(a)
    # qhas over cat/app needs their axioms too
    out = []
    for a in sorted(need):
        out.extend(AXIOMS[a])
    return out


def has_quant(f):
    seen, todo = set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if z3.is_app(t):
            todo.extend(t.children())
    return False


def free_consts(f):
    out, seen, todo = {}, set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.get_id()] = t
            todo.extend(t.children())
    return list(out.values())
