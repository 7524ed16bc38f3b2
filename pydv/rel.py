"""Contracts and their verification conditions.

A contract states   requires pre(args);  ensures  f(args) behaves as spec(args)
where `spec` is an executable pure specification function written from the
property (same results up to structure, same exceptions, same effects on the
caller's objects) and `pre` an executable predicate.  Both are executed
symbolically over the same arbitrary initial heap; every pair of paths of the
real body and the specification gives one obligation.  Calls to contracted
functions are replaced, on both sides, by the contract's result symbol.

Loops are related by coupling invariants (the states of the two loops agree at
every iteration), which are generated and proved inductive: see `Rel.match`.
"""
from __future__ import annotations

import inspect
import time

from .logic import *  # noqa: F401,F403
from .logic import z3, FRESH, UNOLD, OPAQUE_RESULT, QTAB, NONE, TRUE, FALSE, T, Fa
from . import extract
from .sym import heap_sort, Exec, St, K, Tup, Exc, Raised, Unsupported, UNDEF, litq, _forall, _chain


TRACE = []  # stands for the log of external calls


class Contract:
    def __init__(self, name, real, spec, pre=None, params=None, ret="V", raises=(), universe=(), requires=True,
                 defaults=None, recursive=True, setup=None, pure=(), ghost=(), heavy=False, order=True, args=None, fresh_ret=None, post=None, unfold=False, modifies=(), trusted=False, inv=None, reads=True):
        self.reads = reads  # False: depends on its (immutable) arguments only
        self.inv = inv  # what every result satisfies by itself; implied by post
        self.trusted = trusted  # an external function: its contract is assumed
        self.modifies = tuple(modifies)  # (parameter, heap component) it may change
        self.post = post
        self.unfold = unfold
        self.name = name
        self.realname = real
        self.spec = spec
        self.pre = pre
        self.ret = ret
        self.raises = tuple(raises)
        self.universe = tuple(universe)
        self.setup = setup
        self.pure = tuple(pure)
        self.ghost = tuple(ghost)
        self.params = params
        self.argshapes = args or {}
        self.fresh_ret = fresh_ret

    @property
    def real(self):
        return extract.resolve(self.realname) if self.realname else None


def partial(fn):
    """A precondition that says nothing where it raises."""
    fn._partial = True
    return fn


class Predicate:
    """A pure recursive predicate over the initial heap, unfolded once."""

    def __init__(self, fn):
        self.fn = fn


class Result:
    def __init__(self, name, status, detail="", backend="", secs=0.0, model=None):
        self.name, self.status, self.detail, self.backend, self.secs, self.model = name, status, detail, backend, secs, model


class Rel:
    def __init__(self, contracts, universe=(), pure=(), ghost=(), predicates=(), opaque=(), timeout=8000, inline=(), merge=False, extra=None, effects=None, lazy=None, virtual=None):
        self.virtual = virtual or {}
        self.lazy = lazy or {}
        self.effects = effects or {}
        self.contracts = {c.name: c for c in contracts}
        self.universe, self.pure, self.ghost, self.predicates, self.opaque = universe, pure, ghost, predicates, opaque
        self.timeout = timeout
        self.inline = inline
        self.merge = merge
        self.extra = extra or {}

    # ------------------------------------------------------------ call hooks
    def handlers(self, ex, for_spec, skip=()):
        h = dict(self.extra)
        ex.assumed |= {f"{c.realname}: contract assumed (external function)" for c in self.contracts.values() if c.trusted}
        for obj, (nm, ret, raises) in self.effects.items():
            h[obj] = self.effect(ex, nm, ret, raises)
        for c in self.contracts.values():
            if c.name in skip:
                continue
            f = self.handler(ex, c)
            if c.realname:
                try:
                    h[c.real] = f
                except (AttributeError, ImportError):
                    pass
            if c.spec is not None:
                h[c.spec] = f
        for p in self.predicates:
            h[p] = self.pred_handler(ex, p)
        return h

    def params(self, c):
        f = c.spec if c.spec is not None else c.real
        return inspect.signature(f)

    def normal_args(self, c, args, kw, st, ex):
        sig = self.params(c)
        try:
            b = sig.bind(*args, **kw)
        except TypeError:
            return None
        out = []
        for n, p in sig.parameters.items():
            if n in b.arguments:
                out.append(b.arguments[n])
            else:
                out.append(ex.pyval(p.default))
        return out

    def handler(self, ex, c):
        def call(ex, st, args, kw):
            vs = self.normal_args(c, args, kw, st, ex)
            if vs is None:
                return ex.exc(st, TypeError)
            if c.unfold and ex.unfolding < 3:
                if c.pre is not None and ex.side == "real":
                    ex.obls.append((f"call of {c.name}: requires", st.pc, self.truth_of(ex, st, c.pre, vs)))
                ex.unfolding += 1
                try:
                    return ex.call_fn(st, c.spec, vs, {})
                finally:
                    ex.unfolding -= 1
            st = st.fork()
            rs = []
            for v in vs:
                rs.append(ex.reify(v, st))
            if c.pre is not None and ex.side == "real":
                t = self.truth_of(ex, st, c.pre, vs)
                if t is not None:
                    ex.obls.append((f"call of {c.name}: requires", st.pc, t))
            # contents of caller objects that were modified
            extra = []
            for cn, a in sorted(st.heap.items()) if c.reads else ():
                m = _oldpart(ex, cn, a, st)
                if m is not None:
                    extra.append(m)
            rs = rs + extra
            sorts = [x.sort() for x in rs]
            tagn = f"C:{c.name}" + ("+" + ",".join(str(x.sort()) for x in extra) if extra else "")
            out = []
            if c.modifies:
                names = list(self.params(c).parameters)
                st = st.fork()
                for pn, comp in c.modifies:
                    tgt = vs[names.index(pn)]
                    fn_ = f"{tagn}@{pn}"
                    OPAQUE_RESULT.add(fn_)
                    srt = heap_sort(comp)
                    ex.put(st, comp, acc("R", tgt), z3.Function(fn_, *sorts, srt)(*rs))
            cur = st
            for e in c.raises:
                nm = f"{tagn}!{e.__name__}"
                OPAQUE_RESULT.add(nm)
                tok = z3.Function(nm, *sorts, Bool)(*rs)
                nxt = None
                for s, b in ex.split(cur, tok):
                    if b:
                        out.append((s, Raised(Exc(e))))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            OPAQUE_RESULT.add(tagn)
            if c.ret == "N":
                v = NONE
            elif c.ret == "B":
                v = mkB(z3.Function(tagn, *sorts, Bool)(*rs))
            elif c.ret == "S":
                v = mkS(z3.Function(tagn, *sorts, Str)(*rs))
            elif c.ret == "I":
                v = mkI(z3.Function(tagn, *sorts, Int)(*rs))
            elif c.ret == "R":
                v = mkR(z3.Function(tagn, *sorts, Int)(*rs))
            else:
                v = z3.Function(tagn, *sorts, V)(*rs)
            if c.inv is not None and not extra:
                ex.callinv[tagn] = lambda t, s: self.truth_of(ex, s, c.inv, [t])
                cur = cur.fork()
                cur.pc = cur.pc + (ex.callinv[tagn](v, cur),)
            out.append((cur, v))
            return out
        return call

    def effect(self, ex, nm, ret, raises):
        """An external call: recorded, in order, with its arguments; its result (and
        whether it fails) is an arbitrary function of the calls so far."""
        from .sym import constref
        from . import models

        ex.assumed.add(f"{nm}: external, result arbitrary" + (f", may raise {[e.__name__ for e in raises]}" if raises else ""))

        def call(ex, st, args, kw):
            log = constref(TRACE)
            vs = [ex.reify(a, st) for a in args] + [ex.reify(kw[k], st) for k in sorted(kw)]
            tn = nm + "".join(":" + k for k in sorted(kw)) + f"/{len(vs)}"
            OPAQUE_RESULT.add("E:" + tn)
            ev = z3.Function("E:" + tn, *[V] * len(vs), V)(*vs)
            (st, _), = models.list_method(ex, st, log, "append", [ev], {})
            q = ex.reifyQ(ex.sel(st, "lst", acc("R", log)), st)
            cur, out = st, []
            for e in raises:
                tok = z3.Function(f"X:{nm}!{e.__name__}", Q, Bool)(q)
                nxt = None
                for s, b in ex.split(cur, tok):
                    if b:
                        out.append((s, Raised(Exc(e))))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            OPAQUE_RESULT.add(f"X:{nm}")
            if ret == "N":
                v = NONE
            elif ret in ("S", "B", "I", "R"):
                v = {"S": mkS, "B": mkB, "I": mkI, "R": mkR}[ret](z3.Function(f"X:{nm}", Q, {"S": Str, "B": Bool}.get(ret, Int))(q))
            elif ret == "L":  # a new list of arbitrary content
                cur = cur.fork()
                v = ex.newlist(cur, z3.Function(f"X:{nm}", Q, Q)(q))
            else:
                v = z3.Function(f"X:{nm}", Q, V)(q)
            return out + [(cur, v)]
        return call

    def pred_handler(self, ex, p):
        nm = f"P:{p.__name__}"
        OPAQUE_RESULT.add(nm)

        def call(ex, st, args, kw):
            for a in args:
                if z3.is_expr(a) and z3.is_app(a) and a.decl().name() == "R" and fresh_site(a.arg(0)):
                    if ex.stack.count(extract.fn(p).key) < 6:
                        return ex.call_fn(st, p, args, kw, rec=True)
            rs = [ex.reify(a, st) for a in args]
            t = z3.Function(nm, *[V] * len(rs), Bool)(*rs)
            return [(st, mkB(t))]
        return call

    def unfold(self, ex, st, p, vs):
        """fact: P(vs) is equivalent to its definition."""
        nm = f"P:{p.__name__}"
        rs = [ex.reify(a, st) for a in vs]
        t = z3.Function(nm, *[V] * len(rs), Bool)(*rs)
        return t == self.truth_of(ex, st, p, vs)

    def axiom_of(self, ex, st, p):
        """P(x) == definition, for every caller value x, for the loop-free cases
        of the definition."""
        np = len(inspect.signature(p).parameters)
        xs = [z3.FreshConst(V, "x") for _ in range(np)]
        n0, a0 = len(ex.loops), len(ex.axioms)
        paths = self.paths_of(ex, st, p, xs)
        loopnames = [L.name + "." for L in ex.loops[n0:]]
        del ex.loops[n0:]
        nm = f"P:{p.__name__}"
        t = z3.Function(nm, *[V] * np, Bool)(*xs)
        out = []

        banned = {f"P:{q.__name__}" for q in self.predicates[self.predicates.index(p):]}

        def loopy(f):
            return symbols([f]) & banned or any(y.startswith(l) for y in symbols([f]) for l in loopnames) or any(c.decl().name().startswith(("L!",)) for c in free_consts(f))
        if not any(loopy(f) or has_quant(f) for pc, v in paths for f in list(pc) + [v]):
            out.append(({nm}, z3.ForAll(xs, t == Or(*[And(*pc, v) for pc, v in paths]), patterns=[t])))
        else:
            for pc, v in paths:
                fs = list(pc) + [v]
                if not any(loopy(f) or has_quant(f) for f in fs):
                    out.append(({nm}, z3.ForAll(xs, Implies(And(*pc), t == v), patterns=[t])))
        return out

    def post_axiom(self, ex, st, c):
        """requires(args) and no exception  ==>  ensures(args, result)."""
        xs = [z3.FreshConst(V, "x") for _ in self.params(c).parameters]
        nm = f"C:{c.name}"
        OPAQUE_RESULT.add(nm)
        srt = {"B": Bool, "S": Str, "I": Int, "R": Int}.get(c.ret, V)
        t = z3.Function(nm, *[V] * len(xs), srt)(*xs)
        res = {"B": mkB, "S": mkS, "I": mkI, "R": mkR}.get(c.ret, lambda t: t)(t)
        pre = self.truth_of(ex, st, c.pre, xs) if c.pre is not None else T
        noexc = [Not(z3.Function(f"{nm}!{e.__name__}", *[V] * len(xs), Bool)(*xs)) for e in c.raises]
        post = self.truth_of(ex, st, c.post, xs + [res])
        f = Implies(And(pre, *noexc), post)
        if any(x.startswith("L!") for x in symbols([f])):
            raise Unsupported(f"postcondition of {c.name} needs a loop")
        return [({nm}, z3.ForAll(xs, f, patterns=[t]) if xs else f)]

    def paths_of(self, ex, st, fn, vs):
        side = ex.side
        ex.side = "pred"
        try:
            rs = ex.call_fn(St((), {}, dict(st.heap), {}, None, None), fn, list(vs), {})
        finally:
            ex.side = side
        out = []
        for s, v in rs:
            if isinstance(v, Raised) and getattr(fn, "_partial", False):
                out.append((s.pc, T))
                continue
            if isinstance(v, Raised):
                raise Unsupported(f"predicate {getattr(fn, '__name__', fn)} may raise {v.exc}")
            out.append((s.pc, ex.truth(v, s)))
        return out

    truth_of_in = lambda self, ex, st, fn, vs: self.truth_of(ex, st, fn, vs)

    def truth_of(self, ex, st, fn, vs):
        """Bool term: the pure predicate fn holds of vs in state st."""
        return Or(*[And(*pc, v) for pc, v in self.paths_of(ex, st, fn, vs)])

    # -------------------------------------------------------------- verify
    def make_exec(self):
        ex = Exec(universe=self.universe, pure=self.pure, ghost=self.ghost, opaque=self.opaque, inline=self.inline, merge=self.merge)
        ex.side = "real"
        ex.unfolding = 0
        ex.callinv = {}
        ex.lazy = dict(self.lazy)
        ex.virtual = dict(self.virtual)
        return ex

    def verify(self, name, unfold_contracts=()):
        c = self.contracts[name]
        t0 = time.time()
        ex = self.make_exec()
        self.ex = ex
        results = []
        try:
            real = c.real
        except (AttributeError, ImportError) as e:
            return [Result(f"{name}: extract", "undecided", f"function not found: {e}")], ex
        sig = self.params(c)
        ex.contracts = self.handlers(ex, False, skip=unfold_contracts)
        st = St((), {}, {}, {}, None, None)
        args = []
        for n, p in sig.parameters.items():
            shape = c.argshapes.get(n)
            if callable(shape):
                v = shape(ex, st, n)
            else:
                v = z3.Const(f"arg:{n}", V)
            args.append(v)
        facts = []
        if c.setup:
            facts += c.setup(ex, st, args) or []
        for p in self.predicates:
            if not getattr(p, "_no_axiom", False):
                ex.axioms += self.axiom_of(ex, st, p)
        for d in self.contracts.values():
            if d.post is not None:
                ex.axioms += self.post_axiom(ex, st, d)
        if c.pre is not None:
            facts.append(self.truth_of(ex, st, c.pre, args))
        for p in self.predicates:
            for app in _apps(facts, f"P:{p.__name__}"):
                if all(any(x.eq(z) for z in args if z3.is_expr(z)) for x in app.children()):
                    facts.append(self.unfold(ex, st, p, list(app.children())))
        st.pc = tuple(f for f in facts if not is_true(f))
        if ex.check(list(st.pc), timeout=3000) == z3.unsat:
            return [Result(f"{name}: precondition satisfiable", "vacuous", "contradictory precondition")], ex
        # the function under verification: its own body, callees by contract
        own = {k: ex.contracts.pop(k) for k in (real, c.spec) if k in ex.contracts}
        def go(fn, side):
            ex.side = side
            n0 = len(ex.loops)
            handlers = dict(ex.contracts)
            first = [True]
            ex.contracts = dict(handlers)
            # recursive calls go through the contract
            out = self.run_body(ex, fn, st, args, own)
            ex.contracts = handlers
            return out, ex.loops[n0:]
        rp, rloops = go(real, "real")
        sp, sloops = go(c.spec, "spec")
        self.rloops, self.sloops = rloops, sloops
        self.memo = {}
        nobl = 0
        reached = False
        for oname, pc, goal in ex.obls:
            results.append(self.oblige(f"{name}: {oname}", list(pc), goal))
        if c.post is not None:
            for i, (s1, k1, v1) in enumerate(rp):
                if k1 != "ret":
                    continue
                fs = []
                g = self.truth_of_in(ex, s1, c.post, args + [v1])
                results.append(self.oblige(f"{name}: path {i + 1}/{len(rp)}: ensures", list(s1.pc) + fs, g))
        for i, (s1, k1, v1) in enumerate(rp):
            for j, (s2, k2, v2) in enumerate(sp):
                pc = list(s1.pc) + [f for f in s2.pc if not any(f is g for g in s1.pc)]
                if not ex.feasible(pc):
                    continue
                lem = self.lemmas(pc, rloops, sloops)
                if not reached and ex.check(pc + lem, timeout=1500) != z3.unsat:
                    reached = True
                goals = self.goals(ex, s1, k1, v1, s2, k2, v2)
                for gname, g in goals:
                    results.append(self.oblige(f"{name}: path {i + 1}/{len(rp)} against spec path {j + 1}: {gname}", pc + lem, g))
                    nobl += 1
                if any(r.status in ("refuted",) for r in results) and len(results) > 400:
                    break
        if not nobl or not reached:
            results.append(Result(f"{name}: obligations", "vacuous", "no obligation generated"))
        return results, ex

    def run_body(self, ex, fn, st, args, own):
        """paths of fn: [(state, kind, value)]; inner recursive calls use `own`."""
        f = extract.fn(fn)
        ex.covered[f.key] = f
        s = st.fork()
        env = ex.bindargs(s, f.node, f.func, list(args), {})
        if env is None:
            raise Unsupported(f"signature of {f.key} does not match its contract")
        if f.func.__closure__:
            for n, cc in zip(f.func.__code__.co_freevars, f.func.__closure__):
                env.setdefault(n, ex.pyval(cc.cell_contents))
        inner = St(s.pc, env, s.heap, f.glb, f, None)
        if f.is_gen:
            inner.yld = ex.alloc(list)
            ex.put(inner, "lst", inner.yld, qnil)
        ex.contracts.update(own)
        outs = ex.block(f.node.body, inner)
        res = []
        for kd, s2, pay in outs:
            if kd == "raise":
                res.append((s2, "raise", pay))
            else:
                v = mkR(s2.yld) if f.is_gen else (pay if kd == "ret" else NONE)
                res.append((s2, "ret", v))
        return res

    def goals(self, ex, s1, k1, v1, s2, k2, v2):
        if k1 != k2:
            what = f"real {'raises ' + v1.cls.__name__ if k1 == 'raise' else 'returns'}, spec {'raises ' + v2.cls.__name__ if k2 == 'raise' else 'returns'}"
            return [(what, Fa)]
        gs = []
        if k1 == "raise":
            if not issubclass(v1.cls, v2.cls):
                return [(f"raises {v1.cls.__name__}, spec {v2.cls.__name__}", Fa)]
            gs.append((f"raises {v2.cls.__name__}", T))
        else:
            a, b = ex.reify(v1, s1), ex.reify(v2, s2)
            gs.append(("result", self.equal(a, b)))
        for c in sorted(set(s1.heap) | set(s2.heap)):
            a1, a2 = ex.comp(s1, c), ex.comp(s2, c)
            if a1.eq(a2):
                continue
            if c.startswith("g:"):
                gs.append((f"global {c[2:]}", Eq(ex.reify(a1, s1), ex.reify(a2, s2))))
                continue
            b1, ch1 = _chain(a1)
            b2, ch2 = _chain(a2)
            refs = []
            for r, _ in ch1 + ch2:
                if not fresh_site(r) and not any(r.eq(x) for x in refs):
                    refs.append(r)
            if not b1.eq(b2):
                gs.append((f"effects {c}", b1 == b2))
            for r in refs:
                x, y = ex.sel_(a1, c, r), ex.sel_(a2, c, r)
                if x.sort() == Q:
                    x, y = ex.reifyQ(x, s1), ex.reifyQ(y, s2)
                elif x.sort() == M:
                    x, y = ex.reifyM(x, s1), ex.reifyM(y, s2)
                    gs.append((f"effect on {c}[{r}]", self.mapequal(x, y)))
                    continue
                else:
                    x, y = ex.reify(x, s1), ex.reify(y, s2)
                gs.append((f"effect on {c}[{r}]", Eq(x, y)))
        return gs

    def mapequal(self, x, y):
        if x.eq(y):
            return T
        return x == y

    def equal(self, a, b):
        return Eq(a, b)

    # ------------------------------------------------------------- lemmas
    def lemmas(self, pc, rloops, sloops):
        """Coupling lemmas between the top-level loops of the two executions."""
        out = []
        ids = {f.get_id() for f in pc}
        for L1 in rloops:
            if L1.outer or any(f.get_id() not in ids for f in L1.pc0) and not self.merge:
                continue
            for L2 in sloops:
                if L2.outer or any(f.get_id() not in ids for f in L2.pc0) and not self.merge:
                    continue
                key = (L1.name, L2.name)
                if key not in self.memo:
                    facts = list(L1.pc0) + [f for f in L2.pc0 if not any(f is g for g in L1.pc0)]
                    if self.merge and not self.ex.feasible(facts):
                        self.memo[key] = []
                        continue
                    prior = []
                    for (a, b), l in self.memo.items():
                        if l and a != L1.name and b != L2.name:
                            prior += l
                    found = self.match(L1, [], L2, [], facts + prior, 0) or []
                    if self.merge and found:
                        # the loops run on the branch where both were reached
                        found = [Implies(And(*facts), And(*found))]
                    self.memo[key] = found
                out += self.memo[key]
        return out

    def prove(self, facts, goal, timeout=3000):
        if is_true(goal):
            return True
        if is_false(goal):
            return not self.ex.feasible(facts) or self.ex.check(facts, timeout=timeout) == z3.unsat
        return self.ex.check(list(facts) + [Not(goal)], timeout=timeout) == z3.unsat

    def at(self, L, args, t, extra=()):
        return subst(t, list(zip(L.outer, args)) + list(extra))

    def match(self, L1, a1, L2, a2, facts, depth):
        """Coupling invariant of two loops, proved inductive; returns lemma facts."""
        ex = self.ex
        if depth > 4 or L1.whl != L2.whl:
            return None
        n1, n2 = self.at(L1, a1, L1.n), self.at(L2, a2, L2.n)
        lem = []
        if not L1.whl and not self.prove(facts, Eq(n1, n2)):
            return None
        J = z3.FreshConst(Int, "J")
        f = list(facts) + [J >= 0]
        if not L1.whl:
            f += [J < n1, J < n2]
        j1, j2 = [(L1.j, J)], [(L2.j, J)]
        if L1.guard is not None or L2.guard is not None:
            g1 = self.at(L1, a1, L1.guard(L1.j), j1) if L1.guard else T
            g2 = self.at(L2, a2, L2.guard(L2.j), j2) if L2.guard else T
            if not self.prove(f, g1 == g2):
                return None
            f.append(g1)
        if len(L1.exits) and not len(L2.exits) or len(L2.exits) and not len(L1.exits):
            pass
        # couple the states
        keys1 = [k for k in L1.state]
        keys2 = [k for k in L2.state]
        # parts of the state that only one side has are left out of the invariant
        base = St((), {}, {}, {}, None, None)

        def rf(t):
            if t.sort() == V:
                return ex.reify(t, base)
            if t.sort() == Q:
                return ex.reifyQ(t, base)
            if t.sort() == M:
                return ex.reifyM(t, base)
            return t
        for perm in _perms(L1, L2, keys1, keys2):
            ok = True
            for k1, k2 in perm:
                i1, i2 = rf(self.at(L1, a1, L1.init[k1])), rf(self.at(L2, a2, L2.init[k2]))
                if not self.prove(facts, Eq(i1, i2)):
                    ok = False
                    break
            if not ok:
                continue
            hyp = list(f)
            for k1, k2 in perm:
                if k1 in L1.flat and k2 in L2.flat:
                    continue
                s1, s2 = L1.state[k1](*(a1 + [J])), L2.state[k2](*(a2 + [J]))
                hyp.append(s1 == s2)
                if s1.sort() == Q:
                    hyp.append(ex.RQ(s1) == ex.RQ(s2))
                if s1.sort() == M:
                    hyp.append(ex.RM(s1) == ex.RM(s2))
            inner = []
            for I1 in ex.loops:
                if I1.outer and len(I1.outer) == len(L1.outer) + 1 and I1.outer[-1].eq(L1.j):
                    for I2 in ex.loops:
                        if I2.outer and len(I2.outer) == len(L2.outer) + 1 and I2.outer[-1].eq(L2.j):
                            # facts of the path prefix inside the body
                            p1 = [self.at(I1, a1 + [J], x) for x in I1.pc0 if _about(x, L1)]
                            p2 = [self.at(I2, a2 + [J], x) for x in I2.pc0 if _about(x, L2)]
                            m = self.match(I1, a1 + [J], I2, a2 + [J], hyp + inner + p1 + p2, depth + 1)
                            if m:
                                pre = And(*p1, *p2)
                                inner += [Implies(pre, x) for x in m]
            hyp += inner
            good = True
            for p1, nx1 in L1.paths:
                q1 = [self.at(L1, a1, x, j1) for x in p1]
                for p2, nx2 in L2.paths:
                    q2 = [self.at(L2, a2, x, j2) for x in p2]
                    ctx = hyp + q1 + q2
                    if not ex.feasible(ctx):
                        continue
                    for k1, k2 in perm:
                        if k1 in L1.flat and k2 in L2.flat:
                            part1 = _partof(L1, k1, p1)
                            part2 = _partof(L2, k2, p2)
                            x, y = rf(self.at(L1, a1, part1, j1)), rf(self.at(L2, a2, part2, j2))
                        else:
                            x, y = rf(self.at(L1, a1, nx1[k1], j1)), rf(self.at(L2, a2, nx2[k2], j2))
                        if not self.prove(ctx, Eq(x, y)):
                            good = False
                            break
                    if not good:
                        break
                if good:
                    for kd, p2 in L2.exits:
                        q2 = [self.at(L2, a2, x, j2) for x in p2]
                        if not self.prove(hyp + q1 + q2, Fa):
                            good = False
                            break
                if not good:
                    break
            if good:
                for p2, nx2 in L2.paths:
                    q2 = [self.at(L2, a2, x, j2) for x in p2]
                    for kd, p1 in L1.exits:
                        q1 = [self.at(L1, a1, x, j1) for x in p1]
                        if not self.prove(hyp + q1 + q2, Fa):
                            good = False
                            break
                    if not good:
                        break
            if not good:
                continue
            pts = [(n1, n2)]
            lem = [Eq(n1, n2)] if L1.whl else []
            if L1.e is not None and L2.e is not None:
                e1, e2 = self.at(L1, a1, L1.e), self.at(L2, a2, L2.e)
                lem.append(e1 == e2)
                pts.append((e1, e2))
                # loops inside the body, at the iteration that leaves this one
                here = [g for g in hyp[:len(hyp) - len(inner)] if not any(g is x for x in facts)]
                for x in inner:
                    lem.append(Implies(z3.substitute(And(*here), (J, e1)), z3.substitute(x, (J, e1))))
            d1, d2 = _done(L1, a1), _done(L2, a2)
            lem.append(d1 == d2)
            for k1, k2 in perm:
                for t1, t2 in pts:
                    if k1 in L1.flat and k2 in L2.flat:
                        x, y = L1.flat[k1](*(a1 + [t1])), L2.flat[k2](*(a2 + [t2]))
                    else:
                        x, y = L1.state[k1](*(a1 + [t1])), L2.state[k2](*(a2 + [t2]))
                    lem.append(x == y)
                    if x.sort() == Q:
                        lem.append(ex.RQ(x) == ex.RQ(y))
                        lem.append(qlen_(x) == qlen_(y))
                    if x.sort() == M:
                        lem.append(ex.RM(x) == ex.RM(y))
            self.coupled = getattr(self, "coupled", 0) + 1
            return lem
        return None

    # ---------------------------------------------------------- discharge
    def oblige(self, name, facts, goal):
        ex = self.ex
        t0 = time.time()
        if is_true(goal):
            return Result(name, "proved", backend="simplifier")
        r = ex.check(list(facts) + [Not(goal)], timeout=self.timeout)
        if r == z3.unsat:
            return Result(name, "proved", backend="z3", secs=time.time() - t0)
        r2 = ex.check(list(facts) + [Not(goal)], timeout=self.timeout // 2, mbqi=True)
        if r2 == z3.unsat:
            return Result(name, "proved", backend="z3-mbqi", secs=time.time() - t0)
        model = None
        if r2 == z3.sat or r == z3.sat:
            try:
                model = ex.last.model()
            except z3.Z3Exception:
                model = None
        return Result(name, "refuted" if z3.sat in (r, r2) else "unknown", detail=str(goal)[:600], secs=time.time() - t0, model=model)


def _done(L, args):
    return z3.Function(f"{L.name}.done", *[Int] * len(args), Bool)(*args) if args else z3.Const(f"{L.name}.done", Bool)


def _apps(fs, name):
    out, seen, todo = {}, set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().name() == name:
                out[t.get_id()] = t
            todo.extend(t.children())
    return list(out.values())


def _about(x, L):
    return any(c.eq(L.j) for c in free_consts(x)) or any(d.name() in symbols([x]) for d in L.state.values())


def _partof(L, k, pcs):
    r = QTAB[L.flat[k].name()]
    for p, part in r.paths:
        if len(p) == len(pcs) and all(a.eq(b) for a, b in zip(p, pcs)):
            return part
    raise Unsupported("part")


def _perms(L1, L2, keys1, keys2):
    import itertools

    if not keys1 or not keys2:
        return [[]]
    if len(keys1) != len(keys2):
        return _injections(L1, L2, keys1, keys2)
    n = 0
    out = []
    for p in itertools.permutations(keys2):
        if all(L1.state[a].range() == L2.state[b].range() and (a[0] == b[0]) and (a[0] == "v" or a[1] == b[1])
               and ((a in L1.flat) == (b in L2.flat)) for a, b in zip(keys1, p)):
            out.append(list(zip(keys1, p)))
        n += 1
        if n > 720 or len(out) >= 24:
            break
    # same names first
    out.sort(key=lambda pr: -sum(1 for a, b in pr if a == b))
    return out


def _injections(L1, L2, keys1, keys2):
    import itertools

    swap = len(keys1) > len(keys2)
    small, big = (keys2, keys1) if swap else (keys1, keys2)
    out = []
    for n, p in enumerate(itertools.permutations(big, len(small))):
        pr = [(b, a) if swap else (a, b) for a, b in zip(small, p)]
        if all(L1.state[a].range() == L2.state[b].range() and a[0] == b[0] and (a[0] == "v" or a[1] == b[1]) and ((a in L1.flat) == (b in L2.flat)) for a, b in pr):
            out.append(pr)
        if n > 720 or len(out) >= 12:
            break
    out.sort(key=lambda pr: -sum(1 for a, b in pr if a == b))
    return out + [[]]


def _oldpart(ex, c, a, st):
    """the part of a heap component that concerns caller objects, if modified."""
    if c.startswith("g:"):
        return None
    base, ch = _chain(a)
    keep = [(r, v) for r, v in ch if not fresh_site(r)]
    if base.eq(ex.heap0.get(c)) and not keep:
        return None
    t = base
    for r, v in reversed(keep):
        if v.sort() == V:
            v = ex.reify(v, st)
        elif v.sort() == Q:
            v = ex.reifyQ(v, st)
        else:
            v = ex.reifyM(v, st)
        t = z3.Store(t, r, v)
    return t
