"""P02: parameter references."""
import inspect
import json
import re

from cwl_utils import expression, sandboxjs
from cwl_utils.errors import JavascriptException, WorkflowException
from cwl_utils.sandboxjs import NodeJSEngine
from pydv.rel import Contract, Rel

from . import gen
from .driver import rel_job
from .p11 import htext

ID = "P02"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("NodeJSEngine.regex_eval, evaluator, NodeJSEngine.eval and code_fragment_to_js are proved equal to their specification for every text, context and library: which member a reference denotes segment by "
        "segment, and exactly when the text goes to the JavaScript engine or is rejected. How the two regular expressions cut a text into segments is uninterpreted (same expressions on both sides); the engine process itself "
        "is assumed and synchronous, extra keyword arguments are none. Bounded: random references over random contexts against an independent walk, with a recording engine.")


def walk(self, parsed_string, remaining_string, current_value):
    """the member reached by the segments, one after the other"""
    if not remaining_string:
        return current_value
    m = sandboxjs.segment_re.match(remaining_string)
    if not m:
        return current_value
    seg = m.group(1)
    rest = remaining_string[m.end(1):]
    if seg[0] == "." or seg[1] in ("'", '"'):
        key = seg[1:] if seg[0] == "." else seg[2:-2].replace("\\'", "'").replace('\\"', '"')
        if isinstance(current_value, list) and key == "length" and not rest:
            return len(current_value)
        if not isinstance(current_value, dict) or key not in current_value:
            raise WorkflowException("no member")
        return self.regex_eval(parsed_string + remaining_string, rest, current_value[key])
    try:
        n = int(seg[1:-1])
    except ValueError:
        raise WorkflowException("no number")
    if not isinstance(current_value, list) or n >= len(current_value):
        raise WorkflowException("no element")
    return self.regex_eval(parsed_string + remaining_string, rest, current_value[n])


def pre_walk(self, parsed_string, remaining_string, current_value):
    return isinstance(self, NodeJSEngine) and isinstance(parsed_string, str) and isinstance(remaining_string, str)


def js_eval(self, scan, jslib="", timeout=sandboxjs.default_timeout, force_docker_pull=False, debug=False, js_console=False, container_engine="docker"):
    """only a clean run that prints JSON has a value"""
    r = self.exec_js_process(sandboxjs.code_fragment_to_js(scan, jslib), timeout, js_console=js_console, force_docker_pull=force_docker_pull, container_engine=container_engine)
    if r[0] != 0:
        raise JavascriptException("failed")
    try:
        return json.loads(r[1])
    except ValueError:
        raise JavascriptException("no JSON")


def pre_js_eval(self, scan, jslib, timeout, force_docker_pull, debug, js_console, container_engine):
    return isinstance(self, NodeJSEngine) and isinstance(scan, str) and isinstance(jslib, str) and isinstance(debug, bool) and isinstance(js_console, bool)


def process(self, js_text, timeout=sandboxjs.default_timeout, js_console=False, context=None, force_docker_pull=False, container_engine="docker"):
    return (0, "", "")


def post_process(self, js_text, timeout, js_console, context, force_docker_pull, container_engine, result):
    return isinstance(result, tuple) and len(result) == 3 and isinstance(result[0], int) and isinstance(result[1], str) and isinstance(result[2], str)


def code(jscript, jslib=""):
    """a body stands as it is, an expression is returned"""
    if isinstance(jscript, str) and len(jscript) > 1 and jscript[0] == "{":
        body = jscript
    else:
        body = f"{{return ({jscript});}}"
    return f'"use strict";\n{jslib}\n(function(){body})()'


def pre_code(jscript, jslib):
    return isinstance(jscript, str) and isinstance(jslib, str)


def call_js(self, scan, jslib=""):
    return scan


def member(self, parsed_string, remaining_string, current_value):
    return current_value


def evaluate(js_engine, ex, obj, jslib, fullJS):
    m = sandboxjs.param_re.match(ex)
    if m is not None:
        first, end = m.group(1), m.end(1)
        if first == "null" and end + 1 == len(ex):
            return None
        if first in ("inputs", "self", "runtime"):
            try:
                return js_engine.regex_eval(first, ex[end:-1], obj[first])
            except WorkflowException:
                pass
    if fullJS:
        return js_engine.eval(ex, jslib)
    raise JavascriptException("parameter reference")


def pre_evaluate(js_engine, ex, obj, jslib, fullJS):
    return isinstance(js_engine, NodeJSEngine) and isinstance(ex, str) and isinstance(obj, dict) and "inputs" in obj and "self" in obj and "runtime" in obj and isinstance(jslib, str) and isinstance(fullJS, bool)


def no(ex, st, args, kw):
    from pydv.logic import Fa, mkB

    return [(st, mkB(Fa))]


WE = (WorkflowException,)


def make(part):
    C = {"regex_eval": lambda: [Contract("regex_eval", "cwl_utils.sandboxjs:NodeJSEngine.regex_eval", walk, pre_walk, raises=WE)],
         "evaluator": lambda: [Contract("evaluator", "cwl_utils.expression:evaluator", evaluate, pre_evaluate, raises=WE),
                               Contract("regex_eval", "cwl_utils.sandboxjs:NodeJSEngine.regex_eval", member, None, raises=WE, trusted=True),
                               Contract("eval", "cwl_utils.sandboxjs:NodeJSEngine.eval", call_js, None, raises=(JavascriptException,), trusted=True)],
         "eval": lambda: [Contract("eval", "cwl_utils.sandboxjs:NodeJSEngine.eval", js_eval, pre_js_eval, raises=(JavascriptException,)),
                          Contract("process", "cwl_utils.sandboxjs:NodeJSEngine.exec_js_process", process, None, post=post_process, raises=(JavascriptException,), trusted=True),
                          Contract("code", "cwl_utils.sandboxjs:code_fragment_to_js", code, None, ret="S")],
         "code": lambda: [Contract("code", "cwl_utils.sandboxjs:code_fragment_to_js", code, pre_code)]}
    lazy = {sandboxjs.stdfmt: htext, sandboxjs.linenum: htext, sandboxjs.re.findall: hlist} if part == "eval" else {}
    return Rel(C[part](), universe=(NodeJSEngine, re.Match), extra={inspect.iscoroutinefunction: no}, lazy=lazy, effects={json.loads: ("json.loads", "V", (ValueError,))} if part == "eval" else {})


def hlist(ex, st, args, kw):
    from pydv.logic import Q, z3

    st = st.fork()
    return [(st, ex.newlist(st, z3.FreshConst(Q, "lines")))]


JOBS = [rel_job(lambda p=p: make(p), p) for p in ("regex_eval", "evaluator", "eval", "code")]

# ------------------------------------------------------------- bounded checks
from .p03 import Recorder  # noqa: E402

KEYS = ["a", "b", "foo", "length", "class", "path", "x y", "k'q", 'k"q', "ü", "0", "a.b", "$", "listing", "_", "B9", "a[0]", "-"]


def val(rng, d):
    r = rng.random()
    if d == 0 or r < .3:
        return rng.choice([1, "s", None, True, 2.5, "", 0, [], {}])
    if r < .65:
        x = {rng.choice(KEYS): val(rng, d - 1) for _ in range(rng.randrange(1, 5))}
        if rng.random() < .3:
            x["class"] = rng.choice(["File", "Directory", "File", "Other"])
            x.setdefault("path", "/p")
        return x
    return [val(rng, d - 1) for _ in range(rng.randrange(4))]


def gen_ref(rng, tier):
    ctx = {"inputs": {k: val(rng, 3) for k in rng.sample(KEYS, 5)}, "self": val(rng, 2), "runtime": {"cores": 1, "outdir": "/o"}}
    first = rng.choice(["inputs", "inputs", "inputs", "self", "runtime", "null", "foo", "Inputs", "inputs_"])
    cur, segs, bad = ctx.get(first), "", first not in ctx
    steps = rng.randrange(5)
    for i in range(steps):
        if isinstance(cur, dict) and cur and rng.random() < .85:
            k = rng.choice(list(cur))
        elif isinstance(cur, list) and rng.random() < .8:
            k = rng.choice([0, 1, len(cur) - 1, len(cur), "length", 10])
        else:
            k = rng.choice(KEYS + [0, 1, 2])
        if isinstance(k, int):
            if k < 0:
                k = 0
            segs += f"[{'0' if rng.random() < .1 else ''}{k}]"
        else:
            forms = []
            if re.fullmatch(r"\w+", k):
                forms.append("." + k)
            if "'" not in k:
                forms.append(f"['{k}']")
            else:
                forms.append("['" + k.replace("'", "\\'") + "']")
            if '"' not in k:
                forms.append(f'["{k}"]')
            else:
                forms.append('["' + k.replace('"', '\\"') + '"]')
            segs += rng.choice(forms)
        if bad:
            continue
        if isinstance(k, int):
            if isinstance(cur, list) and k < len(cur):
                cur = cur[k]
            else:
                bad = True
        elif isinstance(cur, dict) and k in cur:
            cur = cur[k]
        elif isinstance(cur, list) and k == "length" and i == steps - 1:
            cur = len(cur)
        else:
            bad = True
    text = f"({first}{segs})"
    if first == "null" and not segs:
        bad, cur = False, None
    return text, ctx, None if bad else (cur,), rng.random() < .5


def run_ref(c):
    text, ctx, want, js = c
    e = Recorder("from js")
    given = json.dumps(ctx)
    try:
        r = ("ok", expression.evaluator(e, text, ctx, "lib", js))
    except JavascriptException:
        r = ("js error",)
    except WorkflowException as x:
        r = ("workflow error", x)
    if json.dumps(ctx) != given:
        return "the context changed"
    if want is not None:
        if r[0] != "ok" or e.calls or repr(r[1]) != repr(want[0]):
            return f"{text} is {r} with {e.calls}, expected {want[0]!r}"
        return None
    if js:
        if r != ("ok", "from js") or [x[:2] for x in e.calls] != [(text, "lib")]:
            return f"{text} is {r} with {e.calls}, expected to go to JavaScript"
    elif r != ("js error",) or e.calls:
        return f"{text} without JavaScript is {r} with {e.calls}"
    return None


TEXTS = ["(inputs.a + 1)", "(foo)", "{return 1;}", "(inputs.a[-1])", "(inputs['a)", "(inputs .a)", "(null.a)", "(nullx)", "(inputs..a)", "(1)", "()", "(inputs.a)b", "(inputs.a;)", "(inputs[a])", "(inputs[''])", "(inputs.a())", "( inputs.a)", "(inputs.a )",
         "(inputs[0x1])", "(inputs[1.0])", "(inputs.a,inputs.b)", "{inputs.a}", "(null )", "(!inputs)", "(inputs.a.)", "('null')", "(inputs[+0])", "(self[ 0])", "(runtime-cores)", "(inputs.a=1)", "(null;null)"]


def gen_text(rng, tier):
    t = rng.choice(TEXTS)
    if rng.random() < .3:
        i = rng.randrange(1, len(t))
        t = t[:i] + rng.choice(["+", " ", "!", "/", "%"]) + t[i:]
    return t, {"inputs": {"a": [1, 2], "b": "x", "": 0}, "self": [5], "runtime": {"cores": 3}}, None, rng.random() < .5


def gen_engine(rng, tier):
    return rng.choice([0, 0, 0, 1, -1, 3]), rng.choice(["1", '"x"', "null", '{"a": [1]}', "", "oops", "1 2", "[]", "\n3\n"]), rng.choice(["(1+1)", "{return 1;}", "(inputs)", "{"]), rng.choice(["", "var a;"]), rng.random() < .3, rng.random() < .3


def run_engine(c):
    rc, out, scan, lib, debug, console = c
    e = NodeJSEngine()
    seen = []

    def fake(text, timeout=0, *a, **kw):
        seen.append((text, timeout))
        return rc, out, "[log] x\nerr"
    e.exec_js_process = fake
    try:
        r = ("ok", e.eval(scan, lib, timeout=7, debug=debug, js_console=console))
    except JavascriptException:
        r = ("js error",)
    try:
        want = ("ok", json.loads(out)) if rc == 0 else ("js error",)
    except ValueError:
        want = ("js error",)
    body = scan if scan[0] == "{" and len(scan) > 1 else "{return (" + scan + ");}"
    if r != want:
        return f"exit code {rc} and output {out!r} give {r}, expected {want}"
    if len(seen) != 1 or seen[0][1] != 7 or not seen[0][0].endswith(f"(function(){body})()") or lib not in seen[0][0]:
        return f"evaluated {seen} for {scan}"
    return None


GENS = {"reference": (gen_ref, run_ref), "text": (gen_text, run_ref), "engine": (gen_engine, run_engine)}
COUNTS = {"reference": 20000, "text": 3000, "engine": 1500}
BUDGET, BUDGET_THOROUGH = 10, 90
