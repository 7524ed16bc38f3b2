"""P03: the context of expression evaluation."""
import copy
import json
import re

from schema_salad.utils import json_dumps

from cwl_utils import expression, utils
from cwl_utils.errors import WorkflowException
from pydv.rel import Contract, Rel

from . import gen
from .driver import rel_job

ID = "P03"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("bytes2str_in_dicts, jshead, needs_parsing and do_eval are proved equal to their specification for every value, context and list of requirements: what is evaluated at all, the exact context, library, "
        "escaping rule and options handed to interpolate (whose behaviour is P01), and that every failure becomes a workflow error. json_dumps is an assumed function; extra keyword arguments are none. "
        "Bounded: the same on the real code with a recording engine.")
M = "cwl_utils.expression:"
OLD = ("v1.0", "v1.1.0-dev1", "v1.1", "v1.2.0-dev1", "v1.2.0-dev2", "v1.2.0-dev3")


def b2s(inp):
    """the same value, byte strings in it as text"""
    if isinstance(inp, dict):
        for k in inp:
            inp[k] = utils.bytes2str_in_dicts(inp[k])
        return inp
    if isinstance(inp, list):
        for i, x in enumerate(inp):
            inp[i] = utils.bytes2str_in_dicts(x)
        return inp
    if isinstance(inp, bytes):
        return inp.decode("utf-8")
    return inp


def head(engine_config, rootvars):
    lines = []
    for k, v in rootvars.items():
        lines.append(f"var {k} = {json_dumps(v, indent=4)};")
    return "\n".join(engine_config + lines)


def parsing(snippet):
    return isinstance(snippet, str) and ("$(" in snippet or "${" in snippet)


def interp(scan, rootvars, jslib="", fullJS=False, strip_whitespace=True, escaping_behavior=2, convert_to_expression=False, js_engine=None, timeout=0):
    return scan


def convert(inp):
    return inp


def evaluate(ex, jobinput, requirements, outdir, tmpdir, resources, context=None, timeout=expression.default_timeout, strip_whitespace=True, cwlVersion=""):
    runtime = resources | {"tmpdir": tmpdir or None, "outdir": outdir or None}
    rootvars = utils.bytes2str_in_dicts({"inputs": jobinput, "self": context, "runtime": runtime})
    if not (isinstance(ex, str) and ("$(" in ex or "${" in ex)):
        return ex
    js, lib = False, ""
    for r in reversed(requirements):
        if r["class"] == "InlineJavascriptRequirement":
            js = True
            lib = expression.jshead(r.get("expressionLib", []), rootvars)
            break
    try:
        return expression.interpolate(ex, rootvars, timeout=timeout, fullJS=js, jslib=lib, strip_whitespace=strip_whitespace, escaping_behavior=1 if cwlVersion in OLD else 2)
    except Exception:
        raise WorkflowException("evaluation")


def pre_any(inp):
    return True


def pre_head(engine_config, rootvars):
    return isinstance(engine_config, list) and isinstance(rootvars, dict)


def is_req(r):
    return isinstance(r, dict) and "class" in r and isinstance(r["class"], str) and ("expressionLib" not in r or isinstance(r["expressionLib"], list))


def pre_eval(ex, jobinput, requirements, outdir, tmpdir, resources, context, timeout, strip_whitespace, cwlVersion):
    return isinstance(jobinput, dict) and isinstance(requirements, list) and all(is_req(r) for r in requirements) and isinstance(resources, dict) and isinstance(cwlVersion, str) and isinstance(strip_whitespace, bool) and \
        (outdir is None or isinstance(outdir, str)) and (tmpdir is None or isinstance(tmpdir, str))


def make(part):
    C = {"bytes": lambda: [Contract("bytes", "cwl_utils.utils:bytes2str_in_dicts", b2s, None, raises=(UnicodeDecodeError,))],
         "jshead": lambda: [Contract("jshead", M + "jshead", head, pre_head)],
         "needs_parsing": lambda: [Contract("needs_parsing", M + "needs_parsing", parsing, None)],
         "do_eval": lambda: [Contract("do_eval", M + "do_eval", evaluate, pre_eval, raises=(WorkflowException,)),
                             Contract("interpolate", M + "interpolate", interp, None, raises=(WorkflowException, ValueError), trusted=True),
                             Contract("jshead", M + "jshead", head, None, ret="S", trusted=True),
                             Contract("bytes", "cwl_utils.utils:bytes2str_in_dicts", convert, None, raises=(UnicodeDecodeError,), trusted=True)]}
    return Rel(C[part](), pure=("schema_salad.utils.json_dumps=S",), predicates=(is_req,) if part == "do_eval" else ())


JOBS = [rel_job(lambda p=p: make(p), p) for p in ("bytes", "jshead", "needs_parsing", "do_eval")]


# ------------------------------------------------------------- bounded checks
from cwl_utils.sandboxjs import NodeJSEngine  # noqa: E402


class Recorder(NodeJSEngine):
    """the real parameter references; JavaScript is recorded, not run"""

    def __init__(self, result, fail=None):
        super().__init__()
        self.calls, self.result, self.fail = [], result, fail

    def eval(self, scan, jslib="", *a, **kw):
        self.calls.append((scan, jslib, kw))
        if self.fail is not None:
            raise self.fail
        return self.result


def value(rng, d=3):
    r = rng.random()
    if d == 0 or r < .45:
        return rng.choice([b"bin", "é".encode(), b"", "s", "", 1, 0, 2.5, True, False, None, "b'x'"])
    if r < .75:
        return {rng.choice("abcd"): value(rng, d - 1) for _ in range(rng.randrange(4))}
    return [value(rng, d - 1) for _ in range(rng.randrange(4))]


def text(x):
    if isinstance(x, bytes):
        return x.decode()
    return {k: text(v) for k, v in x.items()} if isinstance(x, dict) else [text(v) for v in x] if isinstance(x, list) else x


def gen_bytes(rng, tier):
    return value(rng, rng.choice([1, 2, 3, 5]))


def run_bytes(c):
    want = repr(text(c))
    got = utils.bytes2str_in_dicts(copy.deepcopy(c))
    return None if repr(got) == want else f"{c!r} becomes {got!r}"


VERS = ["v1.0", "v1.1", "v1.2", "v1.2.0-dev1", "v1.2.0-dev2", "v1.2.0-dev3", "v1.2.0-dev4", "v1.2.0-dev5", "v1.1.0-dev1", "", "v1.3.0-dev1", "draft-3"]


def gen_eval(rng, tier):
    reqs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        r = {"class": rng.choice(["InlineJavascriptRequirement", "InlineJavascriptRequirement", "DockerRequirement", "ResourceRequirement"])}
        if r["class"].startswith("Inline") and rng.random() < .7:
            r["expressionLib"] = [f"function f{rng.randrange(99)}(){{}}" for _ in range(rng.randrange(3))]
        reqs.append(r)
    ex = rng.choice(["$(inputs)", "$(self)", "$(runtime)", "$(inputs.a)", "plain", "", "$", "a $ ( b", 3, None, ["$(1)"], {"a": "$(inputs)"}, True, "$(1+1)", "${return 1;}", " $(runtime) ", "x$(inputs.a)\\z", "\\z$(inputs.a)", "$(inputs.nope)", "\\$(inputs)$(inputs.a)",
                     "$(foo.bar)", "$(", "${a", "$(null)", "{inputs}", "  $(1+1)y ", "$[inputs]", b"$(inputs)"])
    inputs = {k: value(rng, 2) for k in rng.sample(["a", "b", "c"], rng.randrange(4))}
    res = {k: rng.choice([1, 2.5, 0]) for k in rng.sample(["cores", "ram", "tmpdirSize", "outdirSize"], rng.randrange(4))}
    if rng.random() < .1:
        res["tmpdir"] = 7
    return dict(ex=ex, jobinput=inputs, requirements=reqs, outdir=rng.choice([None, "", "/out"]), tmpdir=rng.choice([None, "", "/tmp/x"]), resources=res, context=value(rng, 2), cwlVersion=rng.choice(VERS), strip_whitespace=rng.random() < .7), \
        rng.choice([None, None, None, "js", "value", "key"]), rng.choice([1, "js", {"k": [1]}, None])


def run_eval(c):
    kw, fail, result = c
    from cwl_utils.errors import JavascriptException

    e = Recorder(result, {"js": JavascriptException("no"), "value": ValueError("v"), "key": KeyError("k")}.get(fail))
    ctx = {"inputs": text(kw["jobinput"]), "self": text(kw["context"]), "runtime": {**kw["resources"], "tmpdir": kw["tmpdir"] or None, "outdir": kw["outdir"] or None}}
    js = [r for r in kw["requirements"] if r["class"] == "InlineJavascriptRequirement"]
    ex = kw["ex"]
    given = copy.deepcopy(kw)
    args = copy.deepcopy(kw)
    try:
        r = ("ok", expression.do_eval(js_engine=e, timeout=17, **args))
    except WorkflowException as x:
        r = ("error", x)
    if [repr(args[k]) for k in ("ex", "requirements", "resources")] != [repr(given[k]) for k in ("ex", "requirements", "resources")]:
        return f"arguments changed: {args}"
    if not (isinstance(ex, str) and ("$(" in ex or "${" in ex)):
        if r != ("ok", ex) or e.calls:
            return f"{ex!r} gives {r} with calls {e.calls}"
        return None
    scan = ex.strip() if kw["strip_whitespace"] else ex
    whole = re.fullmatch(r"\$\((inputs|self|runtime)\)", scan)
    if whole:
        if r[0] != "ok" or repr(r[1]) != repr(ctx[whole.group(1)]):
            return f"{scan} is {r}, expected {ctx[whole.group(1)]!r}"
        return None
    for scr, lib, k in e.calls:
        if not js:
            return f"JavaScript {scr} is evaluated without a requirement"
        want = list(js[-1].get("expressionLib", []))
        head_ = "".join(x + "\n" for x in want)
        if not lib.startswith(head_):
            return f"library {lib!r}, expected to start with {want}"
        rest, seen = lib[len(head_):], {}
        while rest.strip():
            mm = re.match(r"\s*var (\w+) = ", rest)
            if not mm:
                return f"library {lib!r}"
            v, end = json.JSONDecoder().raw_decode(rest[mm.end():])
            seen[mm.group(1)] = v
            rest = rest[mm.end() + end:].lstrip(";")
        if json.dumps(seen, sort_keys=True) != json.dumps(ctx, sort_keys=True):
            return f"context variables {seen}, expected {ctx}"
        if k.get("timeout") != 17:
            return f"options {k}"
    needs_js = scan in ("$(1+1)", "${return 1;}", "$(1+1)y", "$(foo.bar)", "$(inputs.nope)") or scan.startswith("$(1+1)y")
    if needs_js:
        if not js:
            if r[0] != "error" or not isinstance(r[1].__cause__, JavascriptException):
                return f"{scan} without JavaScript gives {r}"
        elif fail:
            if r[0] != "error" or r[1].__cause__ is not e.fail:
                return f"{scan} failing with {e.fail!r} gives {r} from {getattr(r[1], '__cause__', None)!r}"
        elif len(e.calls) != 1 or r[0] != "ok" or (scan == "$(1+1)" and r[1] != result):
            return f"{scan} gives {r} with {len(e.calls)} evaluations"
        return None
    if scan in ("$(", "${a"):
        return None if r[0] == "error" and r[1].__cause__ is not None else f"{scan} gives {r}"
    if scan == "$(null)":
        return None if r == ("ok", None) else f"{scan} gives {r}"
    a = ctx["inputs"].get("a", r)
    if "a" in ctx["inputs"] and "\\z" in scan:
        s = a if isinstance(a, str) else json.dumps(a, sort_keys=True, separators=None)
        z = "z" if kw["cwlVersion"] in OLD else "\\z"
        if r[0] != "ok" or re.sub(r"\s", "", r[1]) != re.sub(r"\s", "", scan.replace("\\z", z).replace("$(inputs.a)", s)):
            return f"{scan!r} of {kw['cwlVersion']} gives {r} for a = {a!r}"
    return None


GENS = {"bytes": (gen_bytes, run_bytes), "eval": (gen_eval, run_eval)}
COUNTS = {"bytes": 6000, "eval": 12000}
BUDGET, BUDGET_THOROUGH = 10, 90
