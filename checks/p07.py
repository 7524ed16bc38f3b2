"""P07: the stdin, stdout and stderr shortcuts."""
import copy
import hashlib
import importlib

from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions
from schema_salad.utils import json_dumps

import cwl_utils.parser
from cwl_utils.parser import utils as parser_utils
from pydv.rel import Contract, Rel

from . import docs, gen
from .driver import rel_job

ID = "P07"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("convert_stdstreams_to_files of each version and the dispatch over versions are proved equal to their specification for every command line tool: final value of every port and of every field of the "
        "tool, and the rejected shortcuts. CommandLineTool.save, json_dumps and sha1 are assumed functions of the tool; loops over ports are related by coupling invariants. "
        "Bounded: the real converted tools of random documents (including what is saved and the uniqueness of the chosen names).")
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}") for v in VERSIONS}
UTILS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}_utils") for v in VERSIONS}


def specs(v):
    m = MODS[v]

    def chosen(clt):
        return hashlib.sha1(json_dumps(clt.save(), sort_keys=True).encode("utf-8")).hexdigest()

    def convert(clt):
        for p in clt.outputs:
            if p.type_ == "stdout":
                if p.outputBinding is not None:
                    raise ValidationException("binding")
                if clt.stdout is None:
                    clt.stdout = chosen(clt)
                p.type_ = "File"
                p.outputBinding = m.CommandOutputBinding(glob=clt.stdout)
            elif p.type_ == "stderr":
                if p.outputBinding is not None:
                    raise ValidationException("binding")
                if clt.stderr is None:
                    clt.stderr = chosen(clt)
                p.type_ = "File"
                p.outputBinding = m.CommandOutputBinding(glob=clt.stderr)
        if v != "v1_0":
            for p in clt.inputs:
                if p.type_ == "stdin":
                    if p.inputBinding is not None or clt.stdin is not None:
                        raise ValidationException("binding")
                    clt.stdin = f"$(inputs.{p.id.rpartition("#")[2].split("/")[-1]}.path)"
                    p.type_ = "File"

    def pre(clt):
        return isinstance(clt, m.CommandLineTool) and isinstance(clt.outputs, list) and isinstance(clt.inputs, list) and \
            all(isinstance(p, m.CommandOutputParameter) for p in clt.outputs) and all(isinstance(p, m.CommandInputParameter) and isinstance(p.id, str) for p in clt.inputs)

    def save(self, top=False, base_url="", relative_uris=True):
        return {}
    convert.save = save
    return convert, pre, save


SPECS = {v: specs(v) for v in VERSIONS}


PROCESSES = tuple(c for m in MODS.values() for c in (m.CommandLineTool, m.Workflow, m.ExpressionTool)) + (MODS["v1_2"].Operation,)


def dispatch(process):
    for v in VERSIONS:
        if isinstance(process, MODS[v].CommandLineTool):
            UTILS[v].convert_stdstreams_to_files(process)


def pre_dispatch(process):
    return isinstance(process, PROCESSES)


def contracts(v, trusted=False):
    m = MODS[v]
    convert, pre, save = SPECS[v]
    return [Contract(f"convert_{v}", f"cwl_utils.parser.cwl_{v}_utils:convert_stdstreams_to_files", convert, pre, ret="N", raises=(ValidationException,), trusted=trusted),
            Contract(f"save_{v}", f"cwl_utils.parser.cwl_{v}:CommandLineTool.save", save, None, trusted=True)]


def universe(v):
    m = MODS[v]
    return (m.CommandLineTool, m.CommandOutputParameter, m.CommandInputParameter, m.CommandOutputBinding, LoadingOptions)


PURE = ("schema_salad.utils.json_dumps=S", "_hashlib.openssl_sha1")


def make(v):
    return Rel(contracts(v), universe=universe(v), pure=PURE + (f"cwl_utils.parser.cwl_{v}.CommandOutputBinding",), timeout=15000)


def make_dispatch():
    return Rel([Contract("dispatch", "cwl_utils.parser.utils:convert_stdstreams_to_files", dispatch, pre_dispatch, ret="N", raises=(ValidationException,))],
               universe=PROCESSES,
               effects={UTILS[v].convert_stdstreams_to_files: (f"convert_{v}", "N", (ValidationException,)) for v in VERSIONS})


JOBS = [rel_job(lambda v=v: make(v), f"convert_{v}", timeout=200, label=f"convert.{v}") for v in VERSIONS] + [rel_job(make_dispatch, "dispatch")]


# ------------------------------------------------------------- bounded checks
def gen_tool(rng, tier):
    v = rng.choice(docs.VERSIONS)
    d = docs.tool(rng, v, "#main" if rng.random() < .8 else None, ins=[], outs=[])
    d["cwlVersion"] = v
    for k in ("stdout", "stderr", "stdin"):
        d.pop(k, None)
        if rng.random() < .25:
            d[k] = rng.choice(["o.txt", "$(inputs.a)", "x"])
    outs, ins = [], []
    for n in rng.sample(["o", "p", "q", "r"], rng.randrange(5)):
        t = rng.choice(["stdout", "stdout", "stderr", "stderr", "File", "int", {"type": "array", "items": "File"}])
        o = {"id": n, "type": t}
        if rng.random() < (.08 if t in ("stdout", "stderr") else .6):
            o["outputBinding"] = {"glob": rng.choice(["*", "$(inputs.a)"])}
        if rng.random() < .3:
            o.update(rng.choice([{"doc": "d"}, {"label": "l"}, {"streamable": True}]))
        outs.append(o)
    for n in rng.sample(["a", "b", "c.d", "e_1"], rng.randrange(4)):
        t = rng.choice(["stdin"] * (v != "v1.0") + ["int", "File", "File?", "string"])
        o = {"id": n, "type": t}
        if rng.random() < (.1 if t == "stdin" else .5):
            o["inputBinding"] = {"position": 1}
        if rng.random() < .2:
            o["doc"] = "d"
        ins.append(o)
    d["outputs"], d["inputs"] = outs, ins
    return d, rng.random() < .5, rng.random() < .4


def snap(o, skip=()):
    return {k: gen.norm(x) for k, x in vars(o).items() if k not in skip and k != "loadingOptions"}


def run_tool(c):
    d, generic, nested = c
    v = d["cwlVersion"].replace(".", "_")
    doc = copy.deepcopy(d)
    if nested:
        # a tool within a workflow, whose parameters have longer identifiers
        doc.pop("cwlVersion")
        doc = {"cwlVersion": d["cwlVersion"], "class": "Workflow", "inputs": [], "outputs": [], "steps": [{"id": "s", "in": [], "out": [], "run": doc}]}
    t = MODS[v].load_document_by_yaml(doc, docs.URI, None)
    if nested:
        t = t.steps[0].run
    bad = any(o["type"] in ("stdout", "stderr") and "outputBinding" in o for o in d["outputs"])
    si = [i for i in d["inputs"] if i["type"] == "stdin"]
    bad = bad or any("inputBinding" in i for i in si) or (bool(si) and "stdin" in d) or len(si) > 1
    pre = snap(t, ("inputs", "outputs", "stdin", "stdout", "stderr"))
    ports = [[snap(p, ("type_", "outputBinding") if o["type"] in ("stdout", "stderr") else ("type_",) if o["type"] == "stdin" else ()) for p, o in zip(ps, os_)] for ps, os_ in ((t.outputs, d["outputs"]), (t.inputs, d["inputs"]))]
    same = list(t.outputs), list(t.inputs)
    f = parser_utils.convert_stdstreams_to_files if generic else UTILS[v].convert_stdstreams_to_files
    try:
        f(t)
    except ValidationException as e:
        return None if bad else f"rejected: {e}"
    if bad:
        return "a shortcut that has a binding (or a second stdin) is accepted"
    if snap(t, ("inputs", "outputs", "stdin", "stdout", "stderr")) != pre:
        return f"other fields of the tool changed: {gen.diff(pre, snap(t, ('inputs', 'outputs', 'stdin', 'stdout', 'stderr')))}"
    if list(map(id, t.outputs)) != list(map(id, same[0])) or list(map(id, t.inputs)) != list(map(id, same[1])):
        return "the lists of ports changed"
    after = [[snap(p, ("type_", "outputBinding") if o["type"] in ("stdout", "stderr") else ("type_",) if o["type"] == "stdin" else ()) for p, o in zip(ps, os_)] for ps, os_ in ((t.outputs, d["outputs"]), (t.inputs, d["inputs"]))]
    if after != ports:
        return f"ports changed: {ports} became {after}"
    for k in ("stdout", "stderr"):
        x = getattr(t, k)
        used = any(o["type"] == k for o in d["outputs"])
        if k in d and x != d[k]:
            return f"{k} was {d[k]} and is {x}"
        if k not in d and (x is None) != (not used):
            return f"{k} is {x!r}, shortcut used: {used}"
        if k not in d and used and not (isinstance(x, str) and x and "/" not in x and "$" not in x and "*" not in x and "?" not in x and "[" not in x):
            return f"{k} was given the name {x!r}"
        for p, o in zip(t.outputs, d["outputs"]):
            if o["type"] == k:
                b = p.outputBinding
                if p.type_ != "File" or not isinstance(b, MODS[v].CommandOutputBinding) or b.glob != x or any(y is not None for z, y in vars(b).items() if z not in ("glob", "loadingOptions", "extension_fields")) or b.extension_fields:
                    return f"output {p.id} of type {k} ({x}) became {p.type_} with {gen.norm(b)}"
    if t.stdout is not None and t.stdout == t.stderr and ("stdout" not in d or "stderr" not in d):
        return f"both streams go to {t.stdout}"
    want = f"$(inputs.{si[0]['id']}.path)" if si else d.get("stdin")
    if t.stdin != want:
        return f"stdin is {t.stdin!r}, expected {want!r}"
    for p, o in zip(t.inputs, d["inputs"]):
        if o["type"] == "stdin" and p.type_ != "File":
            return f"stdin input became {p.type_}"
    return None


def gen_other(rng, tier):
    return docs.process(rng, rng.choice(docs.VERSIONS), "#main")


def run_other(d):
    if d["class"] == "CommandLineTool":
        return None
    d.setdefault("cwlVersion", "v1.2")
    p = MODS[d["cwlVersion"].replace(".", "_")].load_document_by_yaml(copy.deepcopy(d), docs.URI, None)
    before = snap(p)
    parser_utils.convert_stdstreams_to_files(p)
    return None if snap(p) == before else "a process that is no tool is changed"


GENS = {"tool": (gen_tool, run_tool), "other": (gen_other, run_other)}
COUNTS = {"tool": 6000, "other": 200}
BUDGET, BUDGET_THOROUGH = 12, 120
