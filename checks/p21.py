"""P21: helpers of the expression refactoring."""
import copy
import importlib

from cwl_utils import expression_refactor as er
from cwl_utils import parser as cp
from ruamel.yaml.comments import CommentedSeq

from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2, load_document_by_yaml
from pydv.logic import qnil
from pydv.rel import Contract, Rel

from . import docs, gen
from .driver import rel_job

ID = "P21"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); the conversion of tools bounded"
NOTE = "proved: find_expressionLib, remove_JSReq, replace_wf_input_ref_with_step_output, the conversion of an expression tool, get_input_for_id (tools and expression tools; workflows bounded) and escape_expression_field, each for the three versions; assumed: constructors, LoadingOptions(), uuid and copies have no effect on other objects; expand_stream_shortcuts, get_expression and the composition are bounded (generated processes)"
M = "cwl_utils.expression_refactor:"
MODS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
REF = {v: importlib.import_module(f"cwl_utils.cwl_{v.replace('.', '_')}_expression_refactor") for v in MODS}
JS = tuple(m.InlineJavascriptRequirement for m in MODS.values())
TOOLS = tuple(m.CommandLineTool for m in MODS.values())
FLOWS = tuple(m.Workflow for m in MODS.values())
STEPS = tuple(m.WorkflowStep for m in MODS.values())
ETOOLS = tuple(m.ExpressionTool for m in MODS.values())
PROCS = TOOLS + FLOWS + STEPS + ETOOLS
TOPS = TOOLS + ETOOLS


def spec_lib(processes):
    for p in reversed(processes):
        if p.requirements:
            for r in p.requirements:
                if isinstance(r, JS):
                    return copy.deepcopy(r.expressionLib)
    return None


def with_reqs(p):
    return isinstance(p, PROCS) and (p.requirements is None or isinstance(p.requirements, list))


def pre_lib(processes):
    return isinstance(processes, list) and all(with_reqs(p) for p in processes)


def spec_remove(process, skip_command_line1):
    if skip_command_line1 and isinstance(process, TOOLS):
        return
    if process.hints:
        process.hints[:] = [h for h in process.hints if not isinstance(h, JS)]
        if not process.hints:
            process.hints = None
    if process.requirements:
        process.requirements[:] = [r for r in process.requirements if not isinstance(r, JS)]
        if not process.requirements:
            process.requirements = None


def pre_remove(process, skip_command_line1):
    return with_reqs(process) and (process.hints is None or isinstance(process.hints, list)) and isinstance(skip_command_line1, bool)


def last(i):
    return i.split("#")[-1].split("/")[-1]


def spec_input(name, tool):
    n = name.split("/")[-1]
    for p in tool.inputs:
        if p.id and last(p.id) == n:
            return p
    return None


INS = tuple(c for m in MODS.values() for n in ("CommandInputParameter", "InputParameter", "WorkflowInputParameter", "OperationInputParameter") for c in [getattr(m, n, None)] if c and "id" in getattr(c, "attrs", ()))


def pre_input(name, tool):
    return isinstance(name, str) and isinstance(tool, TOPS) and isinstance(tool.inputs, list) and all(isinstance(p, INS) and isinstance(p.id, str) for p in tool.inputs)


def spec_escape(contents):
    return contents.replace("${", "$/{").replace("$(", "$/(")


def pre_escape(contents):
    return isinstance(contents, str)


def renamed(source, name, target):
    if isinstance(source, list):
        return [target if s == name else s for s in source]
    return target if source == name else source


def spec_redirect(workflow, name, target):
    if workflow.steps:
        for step in workflow.steps:
            if step.in_:
                for i in step.in_:
                    if i.source:
                        if i.source == name:
                            i.source = target
                        if isinstance(i.source, list):
                            for n, s in enumerate(i.source):
                                if s == name:
                                    i.source[n] = target
    if workflow.outputs:
        for o in workflow.outputs:
            if o.outputSource:
                if o.outputSource == name:
                    o.outputSource = target
                if isinstance(o.outputSource, list):
                    for n, s in enumerate(o.outputSource):
                        if s == name:
                            o.outputSource[n] = target


def spec_cltool(m, old):
    def cltool(etool, expressionLib):
        inputs = []
        for p in etool.inputs:
            if old:
                inputs.append(m.CommandInputParameter(id=p.id, label=p.label, secondaryFiles=p.secondaryFiles, streamable=p.streamable, doc=p.doc, format=p.format, default=p.default, type_=p.type_,
                                                      extension_fields=p.extension_fields, loadingOptions=p.loadingOptions))
            else:
                inputs.append(m.CommandInputParameter(id=p.id, label=p.label, secondaryFiles=p.secondaryFiles, streamable=p.streamable, doc=p.doc, format=p.format, default=p.default, type_=p.type_,
                                                      loadContents=p.loadContents, loadListing=p.loadListing, extension_fields=p.extension_fields, loadingOptions=p.loadingOptions))
        outputs = []
        for p in etool.outputs:
            outputs.append(m.CommandOutputParameter(id=p.id, label=p.label, secondaryFiles=p.secondaryFiles, streamable=p.streamable, doc=p.doc, format=p.format, type_=p.type_,
                                                    extension_fields=p.extension_fields, loadingOptions=p.loadingOptions))
        text = '"use strict";\nvar inputs=$(inputs);\nvar runtime=$(runtime);'
        if expressionLib:
            text += "\n" + "\n".join(expressionLib)
        text += "\nvar ret = function(){" + spec_escape(etool.expression.strip()[2:-1]) + "}();\nprocess.stdout.write(JSON.stringify(ret));"
        files = m.InitialWorkDirRequirement([m.Dirent(entryname="expression.js", entry=text, writable=None)])
        hints = [m.DockerRequirement(dockerPull="node:alpine"), m.SoftwareRequirement(packages=[m.SoftwarePackage(package="nodejs")])]
        return m.CommandLineTool(inputs=inputs, outputs=outputs, id=etool.id, requirements=[files], hints=hints, label=etool.label, doc=etool.doc, cwlVersion=etool.cwlVersion,
                                 baseCommand=["nodejs", "expression.js"], stdout="cwl.output.json", extension_fields=etool.extension_fields, loadingOptions=etool.loadingOptions)
    return cltool


EOUTS = tuple(m.ExpressionToolOutputParameter for m in MODS.values())
WINS = (cwl_v1_0.InputParameter, cwl_v1_1.WorkflowInputParameter, cwl_v1_2.WorkflowInputParameter)


def pre_cltool(etool, expressionLib):
    return (isinstance(etool, ETOOLS) and isinstance(etool.expression, str) and isinstance(etool.inputs, list) and all(isinstance(p, WINS) for p in etool.inputs)
            and isinstance(etool.outputs, list) and all(isinstance(p, EOUTS) for p in etool.outputs) and (expressionLib is None or isinstance(expressionLib, list) and all(isinstance(x, str) for x in expressionLib)))


def plain_list(ex, st, args, kw):
    st = st.fork()
    return [(st, ex.newlist(st, qnil))]


OUTS = tuple(m.WorkflowOutputParameter for m in MODS.values())
SINS = tuple(m.WorkflowStepInput for m in MODS.values())


def pre_redirect(workflow, name, target):
    return isinstance(workflow, FLOWS) and isinstance(workflow.steps, list) and all(step_ok(s) for s in workflow.steps) and isinstance(workflow.outputs, list) and all(isinstance(o, OUTS) and (o.outputSource is None or isinstance(o.outputSource, (str, list))) for o in workflow.outputs) and isinstance(name, str) and isinstance(target, str)


def step_ok(s):
    return isinstance(s, STEPS) and isinstance(s.in_, list) and all(isinstance(i, SINS) and (i.source is None or isinstance(i.source, (str, list))) for i in s.in_)


def make(part, v=None):
    if part == "cltool":
        own = tuple(c for c in ETOOLS + WINS + EOUTS if c.__module__ == MODS[v].__name__)
        return Rel([Contract("cltool", f"{REF[v].__name__}:etool_to_cltool", spec_cltool(MODS[v], v == "v1.0"), pre_cltool),
                    Contract("escape", f"{REF[v].__name__}:escape_expression_field", spec_escape, None, ret="S", unfold=True)], universe=own, extra={CommentedSeq: plain_list}, pure=("schema_salad.runtime.LoadingOptions", "uuid.uuid4"), merge=True)
    if part == "redirect":
        own = tuple(c for c in FLOWS + STEPS + OUTS + SINS if c.__module__ == MODS[v].__name__)
        return Rel([Contract("redirect", f"{REF[v].__name__}:replace_wf_input_ref_with_step_output", spec_redirect, pre_redirect, ret="N")], universe=own, predicates=(step_ok,))
    if part == "lib":
        return Rel([Contract("lib", M + "find_expressionLib", spec_lib, pre_lib)], universe=JS + TOOLS + FLOWS + STEPS + ETOOLS, predicates=(with_reqs,), pure=("copy.deepcopy", "copy.copy"))
    if part == "remove":
        return Rel([Contract("remove", M + "remove_JSReq", spec_remove, pre_remove, ret="N")], universe=JS + TOOLS + FLOWS + STEPS + ETOOLS, predicates=(with_reqs,))
    if part == "input":
        own = tuple(c for c in TOPS + INS if c.__module__ == MODS[v].__name__)
        return Rel([Contract("input", M + "get_input_for_id", spec_input, pre_input)], universe=own)
    return Rel([Contract("escape", f"{REF[part].__name__}:escape_expression_field", spec_escape, pre_escape, ret="S")])


JOBS = [rel_job(lambda p=p: make(p), p) for p in ("lib", "remove")] + [rel_job(lambda v=v: make("redirect", v), "redirect", label=f"redirect.{v}", timeout=300) for v in MODS] + [rel_job(lambda v=v: make("cltool", v), "cltool", label=f"cltool.{v}", timeout=200) for v in MODS] + [rel_job(lambda v=v: make("input", v), "input", label=f"input.{v}") for v in MODS] + [rel_job(lambda v=v: make(v), "escape", label=f"escape.{v}") for v in MODS]

# ------------------------------------------------------------- bounded checks
JSREQ = "InlineJavascriptRequirement"


def gen_flow(rng, tier):
    v = rng.choice(list(MODS))

    def reqs():
        out = []
        for i in range(rng.randrange(4)):
            k = rng.choice([JSREQ, "SubworkflowFeatureRequirement", "StepInputExpressionRequirement", "ShellCommandRequirement"])
            if k not in [x["class"] for x in out]:
                out.append({"class": k, **({"expressionLib": [f"var a{rng.randrange(9)};"]} if k == JSREQ and rng.random() < .7 else {})})
        return out
    names = ["a", "b", "ab", "a2"]
    step = {"id": "s", "in": [], "out": ["o"], "run": {"class": "CommandLineTool", "id": "t", "inputs": [{"id": n, "type": "int"} for n in names[:2]], "outputs": [{"id": "o", "type": "stdout"}],
                                                        "baseCommand": "x", "requirements": [r for r in reqs() if "Sub" not in r["class"]], "hints": [{"class": JSREQ}] if rng.random() < .3 else []}}
    if rng.random() < .5:
        step["run"]["stdout"] = rng.choice(["out.txt", "$(inputs.a).txt"])
    if rng.random() < .5:
        step["requirements"] = reqs()

    def src():
        return rng.choice(names) if rng.random() < .5 else [rng.choice(names) for _ in range(rng.randrange(4))]
    steps = [step]
    for k in range(rng.randrange(3)):
        s = copy.deepcopy(step)
        s["id"] = f"s{k}"
        s["run"]["id"] = f"t{k}"
        steps.append(s)
    for s in steps:
        s["in"] = [{"id": x, **({"source": src()} if rng.random() < .8 else {})} for x in names[:2]]
    d = {"class": "Workflow", "cwlVersion": v, "id": "w", "inputs": [{"id": n, "type": "int"} for n in names], "outputs": [{"id": f"o{i}", "type": "Any", "outputSource": src()} for i in range(rng.randrange(4))],
         "steps": steps, "requirements": reqs() + [{"class": "MultipleInputFeatureRequirement"}], "hints": [{"class": JSREQ}] if rng.random() < .3 else []}
    return {"v": v, "doc": d, "old": rng.choice(names + ["zzz"]), "skip": rng.random() < .3, "look": rng.choice(names + ["file#w/a", "x/y/b", "zz", "", "A"])}


def load(d):
    import logging

    logging.disable(logging.CRITICAL)
    return load_document_by_yaml(copy.deepcopy(d), docs.URI)


def run_flow(c):
    v, d = c["v"], c["doc"]
    m, w = REF[v], load(d)
    step = w.steps[0]
    ps = [w, step, step.run]
    for k in (1, 2, 3):
        want = None
        for q in ([d, d["steps"][0], d["steps"][0]["run"]])[:k]:
            js = [r for r in q.get("requirements", []) if r["class"] == JSREQ]
            if js:
                want = js[0].get("expressionLib")
        got = er.find_expressionLib(ps[:k])
        if got != want:
            return f"find_expressionLib gives {got!r} instead of {want!r}"
        if got is not None and any(got is r.expressionLib for q in ps for r in q.requirements or [] if isinstance(r, JS)):
            return "find_expressionLib does not copy"
    for n in c["look"], "a":
        got = er.get_input_for_id(n, step.run)
        want = last(n) if last(n) in ("a", "b") else None
        if (got.id.split("/")[-1] if got is not None else None) != want:
            return f"get_input_for_id({n!r}) gives {got and got.id}"
    # stdout shortcut
    tool = load(d["steps"][0]["run"] | {"cwlVersion": v})
    before = gen.norm(tool)
    t2 = m.expand_stream_shortcuts(tool)
    if gen.norm(tool) != before:
        return "expand_stream_shortcuts changes its argument"
    o = t2.outputs[0]
    if o.type_ != "File" or o.outputBinding is None or not t2.stdout or o.outputBinding.glob != t2.stdout or t2.stdout != (tool.stdout or t2.stdout):
        return f"stdout output became {o.type_} of {o.outputBinding and o.outputBinding.glob} with stdout {t2.stdout}"
    # redirection
    srcs = [(i, "source") for s in w.steps for i in s.in_] + [(x, "outputSource") for x in w.outputs]
    vals = [copy.deepcopy(getattr(*p)) for p in srcs]
    full = w.inputs[0].id.rsplit("/", 1)[0] + "/" + c["old"]
    rest = gen.norm([[p for p in w.inputs], w.steps[0].run, w.requirements, w.hints])
    m.replace_wf_input_ref_with_step_output(w, full, "step/result")
    for p, old in zip(srcs, vals):
        want = renamed(old, full, "step/result")
        if getattr(*p) != want:
            return f"redirecting {full}: {old} became {getattr(*p)}"
    if gen.norm([[p for p in w.inputs], w.steps[0].run, w.requirements, w.hints]) != rest:
        return "redirecting changed something else"
    # requirement removal
    for p in (w, step, step.run):
        kept = {k: [r for r in getattr(p, k) or [] if not isinstance(r, JS)] for k in ("requirements", "hints")} if not (c["skip"] and isinstance(p, TOOLS)) else {k: getattr(p, k) for k in ("requirements", "hints")}
        was = {k: getattr(p, k) for k in kept}
        er.remove_JSReq(p, c["skip"])
        for k, want in kept.items():
            got = getattr(p, k)
            if len(got or []) != len(want or []) or any(a is not b for a, b in zip(got or [], want or [])) or got == [] and was[k]:
                return f"remove_JSReq leaves {k} {got} instead of {want}"
    return None


def gen_etool(rng, tier):
    v = rng.choice(list(MODS))
    d = docs.etool(rng, v, "e")
    d["expression"] = rng.choice(["${return {'o': 1};}", " ${ var x = '$(inputs.a)'; return {}; } ", "${return {'o': '$${x}'};}", "${return {\"o\": \"\\\\$(\"};}"])
    for k in ("label", "doc"):
        if rng.random() < .4:
            d[k] = "text"
    if isinstance(d["inputs"], list) and v != "v1.0":
        for p in d["inputs"]:
            if rng.random() < .3 and p["type"] == "File":
                p["loadContents"] = True
    return {"v": v, "doc": d, "lib": rng.choice([None, [], ["var a;"], ["function f() { return '$(x)'; }", "var b;"]])}


COPIED = ("id", "label", "secondaryFiles", "streamable", "doc", "format", "type_", "default", "loadContents", "loadListing")


def run_etool(c):
    e = load(c["doc"])
    before = gen.norm(e)
    t = er.etool_to_cltool(e, c["v"], c["lib"])
    if gen.norm(e) != before:
        return "the expression tool was changed"
    if not isinstance(t, MODS[c["v"]].CommandLineTool):
        return f"got a {type(t)}"
    for k in ("id", "label", "doc", "cwlVersion"):
        if getattr(t, k) != getattr(e, k):
            return f"{k} becomes {getattr(t, k)!r}"
    for k in ("inputs", "outputs"):
        a, b = getattr(e, k), getattr(t, k)
        if len(a) != len(b):
            return f"{len(b)} {k} instead of {len(a)}"
        for x, y in zip(a, b):
            for f in COPIED:
                if hasattr(x, f) and hasattr(y, f) and gen.norm(getattr(x, f)) != gen.norm(getattr(y, f)):
                    return f"{k}: {f} becomes {getattr(y, f)!r}"
    w = [r for r in t.requirements if type(r).__name__ == "InitialWorkDirRequirement"]
    text = next((x.entry for r in w for x in r.listing if x.entryname in t.baseCommand), "")
    code = e.expression.strip()[2:-1].replace("${", "$/{").replace("$(", "$/(")
    if "{" + code + "}" not in text or any(x not in text for x in c["lib"] or []) or (c["lib"] and text.index(c["lib"][0]) > text.index(code)):
        return f"the script {text!r} does not hold the expression and its library"
    return None


def gen_expr(rng, tier):
    parts = [rng.choice(["text", " ", "$", "{", "}", "(", ")", "$(inputs.a)", "$(inputs.a.b)", "$(self)", "$(inputs['a'])", "\\$(x)", "$(runtime.cores)", "a$b", "${", "$("]) for _ in range(rng.randrange(5))]
    r = rng.random()
    code = rng.choice(["1 + 1", "inputs.a + 2", "inputs.a.map(f)", "'x'", "a(b(c))", "{'k': [1]}.k"])
    if r < .3:
        return ("js", f"$({code})", code)
    if r < .5:
        return ("block", rng.choice(["", " ", "\n"]) + "${return " + code + ";}", None)
    if r < .6:
        return ("other", rng.choice([None, 3, True, ["$(1+1)"], {"a": "${}"}, ""]), None)
    t = "".join(p for p in parts if "$" not in p or p in ("$", "a$b"))
    if "$(" in t or t.strip().startswith("${"):
        t = "plain"
    if rng.random() < .4:
        t = rng.choice(["$(inputs.a)", "$(inputs.b.c)", "$(inputs['a'])"])
    return ("text", t, None)


def run_expr(c):
    kind, text, code = c
    for m in REF.values():
        got = m.get_expression(text, {"a": 1, "b": {"c": 2}}, None)
        if kind == "js":
            if not isinstance(got, str) or "".join(got.split()) != "".join(("${return " + code + ";}").split()):
                return f"{text!r} becomes {got!r}"
        elif kind == "block":
            if got != text:
                return f"{text!r} becomes {got!r}"
        elif got is not None:
            return f"{text!r} is taken for an expression: {got!r}"
        if isinstance(text, str):
            e = m.escape_expression_field(text)
            if e.replace("$/{", "${").replace("$/(", "$(") != text or "${" in e or "$(" in e:
                return f"{text!r} is escaped as {e!r}"
    return None


GENS = {"flow": (gen_flow, run_flow), "etool": (gen_etool, run_etool), "expr": (gen_expr, run_expr)}
COUNTS = {"flow": 600, "etool": 600, "expr": 1500}
BUDGET, BUDGET_THOROUGH = 30, 200
