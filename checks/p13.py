"""P13: packing."""
import copy
import json
import os
import shutil
import tempfile
import urllib.parse
from urllib.parse import ParseResult

from packaging import version as pv

from cwl_utils import pack as pack_mod
from cwl_utils import schemadef, utils
from pydv.rel import Contract, Rel

from . import p14
from .driver import rel_job, scratch
from .p14 import differ, inlined, join, outcome, rel, table

ID = "P13"
TECHNIQUE = "bounded comparison with an executable specification; contracts on the real functions, discharged by a deductive verifier (pydv + z3) where within reach"
LEVEL = "exploration"
NOTE = "proved: get_inner_dict, _normalize, load_schemadefs, resolve_schemadefs, pack; the traversals listify_everything, normalize_sources, resolve_imports, resolve_steps, add_missing_requirements and their composition pack_process are bounded: random trees of files in a scratch directory against an executable specification"
M = "cwl_utils.pack:"



def spec_inner(cwl, path):
    """the part of a document that a path of keys leads to"""
    if not path:
        return cwl
    if isinstance(cwl, dict):
        v = cwl.get(path[0]["key"])
        return None if v is None else spec_inner(v, path[1:])
    if isinstance(cwl, list):
        for v in cwl:
            if isinstance(v, dict) and v.get(path[0]["key_field"]) == path[0]["key"]:
                return spec_inner(v, path[1:])
    return None


def is_path(path):
    return isinstance(path, list) and all(isinstance(p, dict) and isinstance(p.get("key"), str) and isinstance(p.get("key_field"), str) for p in path)


def pre_inner(cwl, path):
    return is_path(path)


def spec_normalize(s):
    return s[1:] if s.startswith("#") else s


def pre_normalize(s):
    return isinstance(s, str)


def is_process(cwl):
    return isinstance(cwl, dict) and (cwl.get("requirements") is None or isinstance(cwl.get("requirements"), list) and all(isinstance(r, dict) for r in cwl.get("requirements")))


def spec_load(cwl, base_url, parent_user_defined_types):
    """definitions of the document and, over them, of its parent; the requirement goes"""
    defs = schemadef.build_user_defined_type_dict(cwl, base_url)
    if parent_user_defined_types is not None:
        defs.update(parent_user_defined_types)
    cwl["requirements"] = [r for r in cwl.get("requirements", []) if r.get("class") != "SchemaDefRequirement"]
    return cwl, defs


def pre_load(cwl, base_url, parent_user_defined_types):
    return isinstance(cwl, dict) and isinstance(cwl.get("requirements", []), list) and all(isinstance(r, dict) for r in cwl.get("requirements", [])) and isinstance(base_url, ParseResult) and (parent_user_defined_types is None or isinstance(parent_user_defined_types, dict))


def spec_defs(cwl, base_url):
    return cwl


def post_defs(cwl, base_url, res):
    return isinstance(res, dict)


def spec_schemadefs(cwl, base_url, user_defined_types):
    for port in ("inputs", "outputs"):
        cwl = schemadef.inline_types(cwl, port, base_url, user_defined_types)
    return cwl


def pre_schemadefs(cwl, base_url, user_defined_types):
    return isinstance(cwl, dict) and isinstance(base_url, ParseResult) and isinstance(user_defined_types, dict)


def spec_inline(cwl, port, base_url, user_defined_types):
    return cwl


def spec_pack(cwl_path):
    doc, url = utils.load_linked_file(base_url=urllib.parse.urlparse(cwl_path), link="", is_import=True)
    if "$graph" in doc:
        return doc
    return pack_mod.pack_process(doc, url, doc["cwlVersion"])


def pre_pack(cwl_path):
    return isinstance(cwl_path, str)


def make():
    ext = {utils.load_linked_file: ("load_linked_file", "V", (FileNotFoundError,)), pack_mod.pack_process: ("pack_process", "V", (RuntimeError,)),
           schemadef.inline_types: ("inline_types", "V", (RuntimeError,))}
    return Rel([
        Contract("inner", M + "get_inner_dict", spec_inner, pre_inner),
        Contract("normalize", M + "_normalize", spec_normalize, pre_normalize, ret="S"),
        Contract("defs", "cwl_utils.schemadef:build_user_defined_type_dict", spec_defs, None, post=post_defs, trusted=True, raises=(RuntimeError,)),
        Contract("schemadefs", M + "load_schemadefs", spec_load, pre_load, raises=(RuntimeError,), modifies=(("cwl", "dct"),)),
        Contract("inlined", M + "resolve_schemadefs", spec_schemadefs, pre_schemadefs, raises=(RuntimeError,)),
        Contract("pack", M + "pack", spec_pack, pre_pack, raises=(RuntimeError, FileNotFoundError, KeyError, TypeError)),
    ], universe=(ParseResult,), effects=ext, pure=("urllib.parse.urlparse",))


JOBS = [rel_job(make, n) for n in ("inner", "normalize", "schemadefs", "inlined", "pack")]

# ------------------------------------------------------------- bounded checks
PRIM = ["int", "string", "File", "File[]", "string?", "boolean", "Directory", "int[]?"]
DIRS = ["", "", "tools/", "tools/deep/", "wf/", "lib/"]


class Files:
    def __init__(self, rng):
        self.rng, self.files, self.n, self.defs, self.depth = rng, {}, 0, {}, 0

    def new(self, content, ext="yml"):
        f = f"{self.rng.choice(DIRS)}f{self.n}.{ext}"
        self.n += 1
        self.files[f] = None
        self.files[f] = content(f) if callable(content) else content
        return f

    def value(self, f, d=2):
        """any JSON value, with imports and includes"""
        rng = self.rng
        r = rng.random()
        if d == 0 or r < .35:
            return rng.choice([1, "text", "#text", None, True, "a#b", 1.5])
        if r < .5:
            g = self.new(lambda g: self.value(g, d - 1))
            return {"$import": rel(f, g)}
        if r < .65:
            return {"$include": rel(f, self.new(lambda g: rng.choice(["literal text", "a: b\n", "{\"$import\": \"x.yml\"}", "function f() { return 1; }\n", "[1, 2"]), "txt"))}
        if r < .8:
            return [self.value(f, d - 1) for _ in range(rng.randrange(3))]
        out = {k: self.value(f, d - 1) for k in rng.sample(["k", "$import2", "source", "m"], rng.randrange(1, 4))}
        if rng.random() < .1:
            out["$include"] = "stays.txt"
            out["k"] = 1
        return out

    def types(self, f):
        """definitions for one process: where they stand, by reference"""
        rng, out, entries = self.rng, [], []
        for i in range(rng.choice([0, 0, 0, 1, 2])):
            n = f"t{rng.randrange(1000)}"
            t = rng.choice([lambda: {"type": "enum", "symbols": ["p", "q"]}, lambda: {"type": "array", "items": "File"},
                            lambda: {"type": "record", "fields": [{"name": "x", "type": rng.choice(["int", "string?"] + ["#" + n for g, n in out if g is None])}]}])()
            if rng.random() < .5:
                g = self.new(lambda g: dict(t, name=n) if rng.random() < .5 else [dict(t, name=n)]) if "#t" not in str(t) else None
            else:
                g = None
            entries.append({"$import": rel(f, g)} if g else dict(t, name=n))
            out.append((g, n))
        return out, entries

    def ptype(self, f, defs):
        rng = self.rng
        if defs and rng.random() < .4:
            g, n = rng.choice(defs)
            return (rel(f, g) if g else "") + "#" + n + rng.choice(["", "[]", "?"])
        if rng.random() < .15:
            return {"$import": rel(f, self.new({"type": "array", "items": rng.choice(PRIM)}))}
        return rng.choice(PRIM + [{"type": "array", "items": "string"}, ["null", "File"]])

    def ports(self, f, names, defs, extra=None):
        rng = self.rng
        items = []
        for n in names:
            t = self.ptype(f, defs)
            e = {"type": t}
            if rng.random() < .3:
                e["doc"] = self.value(f, 1) if rng.random() < .4 else "text"
            if rng.random() < .2:
                e["default"] = self.value(f, 2)
            e.update(extra() if extra else {})
            items.append((n, e))
        if rng.random() < .5:
            return [dict(e, id=n) for n, e in items]
        return {n: e["type"] if set(e) == {"type"} and isinstance(e["type"], str) and rng.random() < .7 else e for n, e in items}

    def reqs(self, f, entries):
        rng = self.rng
        out = []
        if entries or rng.random() < .1:
            out.append({"class": "SchemaDefRequirement", "types": entries})
        if rng.random() < .3:
            out.append({"class": "InlineJavascriptRequirement", "expressionLib": [self.value(f, 1)]} if rng.random() < .6 else {"class": "InlineJavascriptRequirement"})
        if rng.random() < .3:
            out.append({"class": "EnvVarRequirement", "envDef": self.value(f, 2)})
        rng.shuffle(out)
        return out

    def process(self, f, kind=None):
        rng = self.rng
        self.depth += 1
        kind = kind or rng.choice(["CommandLineTool", "CommandLineTool", "ExpressionTool", "Workflow", "Operation"])
        if self.depth > 3 and kind == "Workflow":
            kind = "CommandLineTool"
        defs, entries = self.types(f)
        d = {"class": kind}
        if rng.random() < .85:
            d["cwlVersion"] = rng.choice(["v1.0", "v1.1", "v1.2", "v1.2", "v1.2.0-dev4", "v1.1.0-dev1"])
        d["inputs"] = self.ports(f, rng.sample(["a", "b", "c"], rng.randrange(4)), defs)
        refs = ["#a", "a", "##a", "#s1/o", "s1/o", "b"]

        def src(key):
            r = rng.random()
            return {} if r < .3 else {key: rng.choice(refs)} if r < .7 else {key: [rng.choice(refs) for _ in range(rng.randrange(3))]}
        d["outputs"] = self.ports(f, rng.sample(["o", "p"], rng.randrange(3)), defs, (lambda: src("outputSource")) if kind == "Workflow" else None)
        rq = self.reqs(f, entries)
        if kind == "Workflow" and rng.random() < .3:
            rq.append({"class": "SubworkflowFeatureRequirement"})
        if rq or rng.random() < .3:
            d["requirements"] = rq if rng.random() < .6 else {x["class"]: {k: v for k, v in x.items() if k != "class"} for x in rq}
            if isinstance(d["requirements"], list) and rng.random() < .15:
                d["requirements"].append({"$import": rel(f, self.new({"class": "ResourceRequirement", "coresMin": 2}))})
        if rng.random() < .3:
            d[rng.choice(["hints", "doc", "$namespaces", "intent"])] = self.value(f, 2)
        if kind == "Workflow":
            steps = []
            for i in range(rng.choice([0, 1, 1, 2, 3])):
                s = {"in": {}, "out": [rng.choice(["o", {"id": "o"}])]}
                ins = {n: rng.choice([rng.choice(refs), {"source": rng.choice(refs)}, {"source": [rng.choice(refs), rng.choice(refs)], "default": 1}, {"default": {"k": "#a"}}]) for n in rng.sample(["x", "y", "z"], rng.randrange(4))}
                s["in"] = ins if rng.random() < .5 else [dict(v if isinstance(v, dict) else {"source": v}, id=n) for n, v in ins.items()]
                if rng.random() < .1:
                    del s["in"]
                r = rng.random()
                if r < .3:
                    s["run"] = self.process(f)
                    if rng.random() < .3:
                        s["run"]["id"] = "#inner"
                else:
                    link = rel(f, self.new(lambda g: self.process(g), "cwl"))
                    s["run"] = link if r < .85 else {"$import": link}
                if rng.random() < .3:
                    s["scatter"] = rng.choice(["x", ["#x"]])
                steps.append((f"s{i}", s))
            if steps or rng.random() < .7:
                d["steps"] = {n: s for n, s in steps} if rng.random() < .5 else [dict(s, id=n) for n, s in steps]
        self.depth -= 1
        return d


def gen_case(rng, tier):
    t = Files(rng)
    doc = t.process("main.cwl", rng.choice(["Workflow"] * 5 + ["CommandLineTool"]))
    doc.setdefault("cwlVersion", "v1.0")
    if rng.random() < .05:
        doc = {"cwlVersion": "v1.2", "$graph": [doc]}
    t.files["main.cwl"] = doc
    return t.files


def listed(v, key, value):
    if isinstance(v, list):
        return list(v)
    return [dict(e if isinstance(e, dict) else {value: e}, **{key: k}) for k, e in v.items()]


def unhash(v):
    return [unhash(x) for x in v] if isinstance(v, list) else v[1:] if isinstance(v, str) and v[:1] == "#" else v


def linked(v, base, read):
    """imports and includes replaced"""
    if isinstance(v, list):
        return [linked(x, base, read) for x in v]
    if isinstance(v, dict) and len(v) == 1:
        (k, f), = v.items()
        if k in ("$import", "$include"):
            g = join(base, f)
            return linked(read(g), g, read) if k == "$import" else open(g).read()
    if isinstance(v, dict):
        return {k: linked(x, base, read) for k, x in v.items()}
    return v


def packed(doc, base, ver, defs, read):
    out = dict(doc)
    wf = doc["class"] == "Workflow"
    out["requirements"] = listed(doc.get("requirements", []), "class", None)
    own = dict(table(out, base, read), **(defs or {}))
    out["requirements"] = [r for r in out["requirements"] if r.get("class") != "SchemaDefRequirement"]
    for port in ("inputs", "outputs"):
        ps = listed(doc.get(port, []), "id", "type")
        if wf and port == "outputs":
            ps = [dict(p, outputSource=unhash(p["outputSource"])) if "outputSource" in p else p for p in ps]
        out[port] = [inlined(p, base, own, read) for p in ps]
    if wf:
        out["steps"] = []
        for s in listed(doc.get("steps", []), "id", None):
            s = dict(s)
            s["in"] = [dict(i, source=unhash(i["source"])) if "source" in i else i for i in listed(s.get("in", []), "id", "source")]
            out["steps"].append(s)
    runs = [s.pop("run") for s in out.get("steps", [])]
    out = linked(out, base, read)
    mine = doc.get("cwlVersion", ver)
    for s, run in zip(out.get("steps", []), runs):
        mine = out.get("cwlVersion", ver)
        if isinstance(run, dict) and set(run) == {"$import"}:
            run = run["$import"]
        if isinstance(run, str):
            g = join(base, run)
            s["run"] = packed(read(g), g, mine, None, read)
        else:
            s["run"] = packed(run, base, mine, own, read)
        v = s["run"].get("cwlVersion")
        if v and pv.parse(v[1:]) > pv.parse(mine[1:]):
            out["cwlVersion"] = v
    if wf and any(s["run"]["class"] == "Workflow" for s in out["steps"]) and not any(r["class"] == "SubworkflowFeatureRequirement" for r in out["requirements"]):
        out["requirements"].append({"class": "SubworkflowFeatureRequirement"})
    return out


def run_case(c):
    root = tempfile.mkdtemp(dir=scratch())
    try:
        for f, content in c.items():
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            with open(os.path.join(root, f), "w") as h:
                if f.endswith("txt"):
                    h.write(content)
                else:
                    json.dump(content, h)

        def read(f):
            with open(f) as h:
                return json.load(h)

        base = os.path.join(root, "main.cwl")
        doc = read(base)
        want = outcome(lambda: doc if "$graph" in doc else packed(doc, base, doc["cwlVersion"], None, read))
        got = outcome(lambda: pack_mod.pack(base))
        if got[0] != want[0] or got[0] == "raise":
            return None if got == want else f"{str(got)[:400]} instead of {str(want)[:300]}"
        return differ(got[1], want[1], "packed", None)
    finally:
        shutil.rmtree(root, True)


GENS = {"trees": (gen_case, run_case)}
COUNTS = {"trees": 3000}
BUDGET, BUDGET_THOROUGH = 25, 200


def probe_step_import():
    return run_case({"main.cwl": {"class": "Workflow", "cwlVersion": "v1.2", "inputs": [], "outputs": [], "steps": [{"$import": "step.yml"}]},
                     "step.yml": {"id": "s", "in": [], "out": [], "run": "tool.cwl"}, "tool.cwl": {"class": "CommandLineTool", "inputs": [], "outputs": []}}) is not None


FINDINGS = {"step-import": probe_step_import}
