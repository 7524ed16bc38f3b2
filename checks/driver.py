"""Runs one property: discharges its obligations, runs its bounded checks on the
real code, decides, and writes the evidence file."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS")


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def limited(fn, secs, *a):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_scratch = None


def scratch():
    """A directory of this process (forked workers share it); main removes it."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-gen-")
        me = os.getpid()
        import atexit

        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_scratch, True))
    return _scratch


# ------------------------------------------------------------------ proofs
def _proof_worker(mod, i, q):
    import logging

    logging.disable(logging.CRITICAL)
    t0 = time.time()
    try:
        m = importlib.import_module(f"checks.{mod}")
        job = m.JOBS[i]
        res = job.run()
    except BaseException as e:  # a crash of the verifier is "undecided"
        res = {"status": "error", "detail": "".join(traceback.format_exception_only(e)).strip()[:500] + " @ " + _where(e), "obligations": []}
    res["secs"] = round(time.time() - t0, 2)
    q.put((i, res))


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:][::-1])


class Job:
    """One function under contract (or one lemma)."""

    def __init__(self, name, fn, timeout=120):
        self.name, self.fn, self.timeout = name, fn, timeout

    def run(self):
        return self.fn()


def rel_job(make, cname, unfold=(), timeout=120, label=None):
    """verify contract `cname` of the Rel made by make(); on failure retry with
    the non-recursive callees' specifications expanded."""
    def run():
        from pydv.sym import Unsupported

        def attempt(expand):
            r = make()
            if expand:
                for c in r.contracts.values():
                    if c.name != cname and not c.trusted and c.spec is not None:
                        c.unfold = True
            try:
                results, ex = r.verify(cname, unfold_contracts=tuple(unfold))
            except Unsupported as e:
                return {"status": "unsupported", "detail": str(e), "obligations": [], "functions": _functions(r)}
            bad = [x for x in results if x.status != "proved"]
            return {
                "status": "proved" if not bad else ("refuted" if any(x.status == "refuted" for x in bad) else bad[0].status),
                "obligations": [(x.name, x.status, x.backend, round(x.secs, 3)) for x in results],
                "detail": "; ".join(f"{x.name}: {x.status} {x.detail}" for x in bad[:3]),
                "functions": _functions(r),
                "assumed": sorted(ex.assumed),
                "queries": ex.queries, "solver_time": round(ex.solver_time, 2), "coupled": getattr(r, "coupled", 0),
            }
        t0 = time.time()
        out = attempt(False)
        left = timeout - (time.time() - t0) - 5
        if out["status"] in ("refuted", "unknown") and left > 3:
            # the body may do the work of a callee itself: expand the callees' specifications
            try:
                again = limited(attempt, min(left, 60), True)
                if again["status"] == "proved":
                    again["detail"] = "callees' specifications expanded"
                    return again
            except (CaseTimeout, Exception):
                pass
        return out
    return Job(label or cname, run, timeout)


def _functions(r):
    ex = getattr(r, "ex", None)
    if ex is None:
        return []
    out = []
    for f in ex.covered.values():
        if "/verif/" in f.path and "/repo/" not in f.path:
            continue
        out.append([f.key, f.loc(), f.sha()])
    return sorted(out)


def run_proofs(modname, mod, nproc=8, only=None):
    jobs = list(enumerate(mod.JOBS))
    if only:
        jobs = [(i, j) for i, j in jobs if only in j.name]
    getattr(mod, "WARM", lambda: None)()
    import gc

    gc.freeze()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    running, results = {}, {}
    todo = sorted(jobs, key=lambda t: -t[1].timeout)
    todo.reverse()
    while todo or running:
        while todo and len(running) < nproc:
            i, j = todo.pop()
            p = ctx.Process(target=_proof_worker, args=(modname, i, q), daemon=True)
            p.start()
            running[i] = (p, time.time() + j.timeout)
        try:
            i, r = q.get(timeout=0.2)
            if i in running:
                running.pop(i)[0].join()
                results[i] = r
            continue
        except Exception:
            pass
        for i, (p, dl) in list(running.items()):
            if time.time() > dl:
                p.kill()
                p.join()
                running.pop(i)
                results[i] = {"status": "timeout", "detail": f"no answer in {mod.JOBS[i].timeout}s", "obligations": [], "secs": mod.JOBS[i].timeout}
            elif not p.is_alive():
                try:
                    while True:
                        k, r = q.get(timeout=0.5)
                        if k in running:
                            running.pop(k)[0].join()
                            results[k] = r
                except Exception:
                    pass
                if i in running:
                    running.pop(i)
                    results[i] = {"status": "error", "detail": f"verifier process ended with {p.exitcode}", "obligations": [], "secs": 0}
    return {mod.JOBS[i].name: results[i] for i, _ in jobs}


# ------------------------------------------------------------------ oracle
def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _case_key(c):
    return hashlib.md5(repr(c).encode("utf-8", "backslashreplace")).digest()[:8]


def _oracle_worker(modname, seed, tier, wid, nw, deadline, q, fixed):
    import logging

    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    m = importlib.import_module(f"checks.{modname}")
    stats = {g: [0, 0] for g in m.GENS}
    seen = {g: set() for g in m.GENS}
    fails, samples = [], []
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.environ["VERIF_TMP"] = tmp
    os.chdir(tmp)
    devnull = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        names = list(m.GENS)
        maxn = {g: (getattr(m, "COUNTS", {}).get(g, 2000) * (1 if tier == "quick" else 20)) // nw + 1 for g in names}
        k = 0
        while time.time() < deadline:
            live = [g for g in names if k < maxn[g]]
            if not live:
                break
            for g in live:
                if time.time() > deadline:
                    break
                s = _seed(seed, g, wid + k * nw)
                r = run_one(m, g, s, tier, seen[g], samples if wid == 0 else None)
                stats[g][0] += 1
                if r is not None:
                    fails.append((g, s, r[0], r[1]))
                    if len(fails) >= 8:
                        break
            if len(fails) >= 8:
                break
            k += 1
    except BaseException as e:
        fails.append(("internal", 0, "", "oracle crashed: " + "".join(traceback.format_exception(e))[-1500:]))
    finally:
        sys.stdout, sys.stderr = so, se
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    for g in stats:
        stats[g][1] = len(seen[g])
    q.put((wid, stats, fails, samples))


def run_one(m, g, s, tier, seen=None, samples=None):
    rng = random.Random(s)
    gen, run = m.GENS[g]
    case = gen(rng, tier)
    if seen is not None:
        seen.add(_case_key(case))
    if samples is not None and len(samples) < 6 and not any(x["generator"] == g for x in samples):
        samples.append({"generator": g, "case": _short(case)})
    try:
        msg = limited(run, getattr(m, "CASE_TIMEOUT", 20), case)
    except CaseTimeout:
        msg = f"no answer within {getattr(m, 'CASE_TIMEOUT', 20)} s"
    except Exception as e:  # an escape from the code under check, not from the harness
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any("/cwl_utils/" in f for f in frames):
            raise
        msg = f"unexpected {type(e).__name__}: {str(e)[:300]} (in {_where(e)})"
    if msg is None:
        return None
    return _short(case, 4000), msg


def _short(c, n=400):
    try:
        r = repr(c)
    except Exception as e:  # noqa: BLE001
        r = f"<unprintable {type(c).__name__}: {e}>"
    return r if len(r) <= n else r[:n] + "..."


def run_oracle(modname, m, seed, tier, budget, nproc=8):
    if not m.GENS:
        return {}, [], []
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    deadline = time.time() + budget
    ps = {}
    for w in range(nproc):
        p = ctx.Process(target=_oracle_worker, args=(modname, seed, tier, w, nproc, deadline, q, None), daemon=True)
        p.start()
        ps[w] = p
    stats, fails, samples = {}, [], []
    got = set()
    hard = deadline + 60
    while len(got) < nproc:
        try:
            w, st, fl, sa = q.get(timeout=0.5)
            got.add(w)
            for g, (a, b) in st.items():
                x = stats.setdefault(g, [0, 0])
                x[0] += a
                x[1] += b
            fails += fl
            samples += sa
        except Exception:
            if time.time() > hard:
                for w, p in ps.items():
                    if w not in got:
                        p.kill()
                        got.add(w)
                        fails.append(("internal", 0, "", "a bounded check did not answer"))
            for w, p in ps.items():
                if w not in got and not p.is_alive():
                    try:
                        w2, st, fl, sa = q.get(timeout=1)
                        got.add(w2)
                        for g, (a, b) in st.items():
                            x = stats.setdefault(g, [0, 0])
                            x[0] += a
                            x[1] += b
                        fails += fl
                        samples += sa
                    except Exception:
                        got.add(w)
                        fails.append(("internal", 0, "", f"a bounded check process ended with {p.exitcode}"))
    return stats, fails, samples


# -------------------------------------------------------------------- main
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            mm = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if mm and mm.group(1) == pid:
                out.append((mm.group(2), mm.group(3)))
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--proof-only", action="store_true")
    ap.add_argument("--oracle-only", action="store_true")
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = pid.lower()
    try:
        m = importlib.import_module(f"checks.{modname}")
    except BaseException as e:
        # the code under check cannot even be imported as the contracts need it
        return import_failure(pid, a, seed, t0, e)
    if a.replay:
        d = json.load(open(a.replay))
        r = run_one(m, d["generator"], d["seed"], d.get("tier", "quick"))
        print(json.dumps(r, indent=1))
        return 1 if r else 0
    scratch()
    proofs = {} if a.oracle_only else run_proofs(modname, m, only=a.job)
    t1 = time.time()
    budget = getattr(m, "BUDGET", 12) if a.tier == "quick" else getattr(m, "BUDGET_THOROUGH", 240)
    stats, fails, samples = ({}, [], []) if a.proof_only else run_oracle(modname, m, seed, a.tier, budget)
    t2 = time.time()
    if a.v:
        for n, r in proofs.items():
            print(f"{n:40s} {r['status']:12s} {len(r['obligations'])} obligations {r.get('secs')}s coupled={r.get('coupled')} {r.get('detail', '')[:700]}")
        print(stats)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    findings = known_findings(pid)
    keyf = getattr(m, "finding_key", lambda g, case, msg: None)
    violations, shown = [], set()
    for g, s, case, msg in fails:
        if g == "internal":
            continue
        k = keyf(g, case, msg)
        if k is not None and any(k == fk for fk, _ in findings):
            shown.add(k)
            continue
        violations.append((g, s, case, msg))
    for fk, text in findings:
        probe = getattr(m, "FINDINGS", {}).get(fk)
        if probe is None or a.proof_only:
            continue
        still = probe()
        if still:
            print(f"KNOWN-FINDING: property={pid} {text}")
    rc = 0
    internal = [f for f in fails if f[0] == "internal"]
    nviol = 0
    if violations:
        g, s, case, msg = violations[0]
        path = os.path.join(HERE, "replay", f"{pid}-{g}.json")
        bad = [(n, r["status"], r.get("detail", "")[:400]) for n, r in proofs.items() if r["status"] != "proved"]
        json.dump({"property": pid, "generator": g, "seed": s, "tier": a.tier, "case": case, "message": msg,
                   "failed_obligations": bad, "replay": f"/opt/venv/bin/python {HERE}/check.py {pid} --replay {path}",
                   "others": [[x[0], x[1], x[2][:500], x[3][:500]] for x in violations[1:6]]}, open(path, "w"), indent=1)
        print(f"{pid}: {msg[:1500]}\n  input: {case[:1500]}")
        for n, st_, d in bad:
            print(f"  obligation not discharged: {n} ({st_}) {d[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        rc, nviol = 1, len(violations)
    else:
        # every obligation of these contracts is discharged on the unchanged tree; one
        # the verifier evaluates completely and no longer accepts is a violation.  A
        # tool limit (unsupported construct, timeout, crash) decides nothing.
        open_ = set(getattr(m, "UNPROVED", ()))
        refuted = [(n, r) for n, r in proofs.items() if r["status"] in ("refuted", "unknown", "vacuous") and n not in open_]
        if refuted:
            n, r = refuted[0]
            path = os.path.join(HERE, "replay", f"{pid}-obligation.json")
            json.dump({"property": pid, "obligation": n, "verifier": r}, open(path, "w"), indent=1)
            print(f"{pid}: obligation not accepted by the verifier: {n}: {r.get('detail', '')[:1200]}")
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            rc, nviol = 1, 1
    for f in internal[:1]:
        print(f"{pid}: note: {f[3][:1500]}")
    write_evidence(pid, m, a, seed, proofs, stats, samples, t0, t1, t2, nviol, [f[3][:600] for f in internal])
    if rc == 0:
        nob = sum(len(r["obligations"]) for r in proofs.values())
        und = [f"{n} ({r['status']}: {r.get('detail', '')[:160]})" for n, r in proofs.items() if r["status"] != "proved"]
        print(f"{pid}: held: {nob} obligations of {len(proofs)} contracts, {sum(v[0] for v in stats.values())} bounded cases" + (f"; undecided: {und}" if und else ""))
    return rc


def write_evidence(pid, m, a, seed, proofs, stats, samples, t0, t1, t2, nviol, notes):
    obl = [o for r in proofs.values() for o in r["obligations"]]
    dis = [o for o in obl if o[1] == "proved"]
    back = {}
    for o in dis:
        back[o[2]] = back.get(o[2], 0) + 1
    und = {n: [r["status"], r.get("detail", "")[:500]] for n, r in proofs.items() if r["status"] != "proved"}
    funcs = sorted({tuple(f) for r in proofs.values() for f in r.get("functions", [])})
    assumed = sorted({x for r in proofs.values() for x in r.get("assumed", [])})
    level = getattr(m, "LEVEL", "proof")
    trusted = list(getattr(m, "TRUSTED", [])) + [
        "pydv: extraction, symbolic execution and coupling of loops (this repository's own verifier)", "z3 5.3.2",
        "partial correctness: termination of recursion and of while loops is not proved",
        "integers are mathematical (as in Python); z3 strings model Python strings up to U+2FFFF",
        "dropped by the extraction: logging calls, print, typing.cast, annotations, docstrings",
    ]
    cov = {
        "obligations": len(obl) + sum(1 for r in proofs.values() if not r["obligations"]),
        "discharged": len(dis),
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {a.tier} --proof-only -v",
        "trusted_base": trusted,
        "contracts": {n: {"status": r["status"], "obligations": len(r["obligations"]), "loops_coupled": r.get("coupled", 0), "seconds": r.get("secs")} for n, r in proofs.items()},
        "functions_under_contract": [list(f) for f in funcs if str(f[1]).startswith("/repo") or "site-packages" in str(f[1])],
        "backends": back,
        "solver_queries": sum(r.get("queries", 0) for r in proofs.values()),
        "solver_seconds": round(sum(r.get("solver_time", 0) for r in proofs.values()), 2),
        "undecided": und,
        "evaluations": sum(v[0] for v in stats.values()),
        "distinct_nontrivial": sum(v[1] for v in stats.values()),
        "rule": "bounded stand-in and replay search: " + getattr(m, "RULE", "seeded random cases per generator; distinct by content") ,
        "bounded": {g: {"cases": v[0], "distinct": v[1]} for g, v in stats.items()},
        "samples": samples[:8],
        "notes": notes,
    }
    if not obl:
        cov["explanation"] = "no obligation was generated in this run"
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumed + list(getattr(m, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)


def import_failure(pid, a, seed, t0, e):
    msg = "".join(traceback.format_exception(e))[-1500:]
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "other", "coverage": {"explanation": "the contracts' subjects could not be imported: " + msg},
          "wall_s": round(time.time() - t0, 2), "violations": 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: undecided: {msg}")
    return 0
