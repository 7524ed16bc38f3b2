"""P20: splitting a packed document."""
import copy
import io
import json
import os
import re
import shutil
import tempfile
from pathlib import Path

from cwl_utils import graph_split as gs
from pydv.rel import Contract, Rel

from .driver import rel_job, scratch

ID = "P20"
TECHNIQUE = "bounded comparison with an executable specification; contracts on the real helper functions, discharged by a deductive verifier (pydv + z3)"
LEVEL = "exploration"
NOTE = "proved: rewrite_id, rewrite_import and rewrite_types do what the specification says for every document; rewrite (a traversal under a context manager that translates exceptions: its obligations exceed the time limit), graph_split and json_dump are bounded: random packed documents split into a scratch directory and compared with an executable specification; documents with type definitions are not generated"
M = "cwl_utils.graph_split:"


def spec_id(entry, this_id):
    """an output of a step loses the step's id"""
    if isinstance(entry, dict):
        if entry["id"].startswith(this_id):
            entry["id"] = entry["id"][len(this_id) + 1:]
        return entry
    if isinstance(entry, str):
        return entry[len(this_id) + 1:] if this_id and entry.startswith(this_id) else entry
    raise Exception("neither")


def pre_id(entry, this_id):
    return (this_id is None or isinstance(this_id, str)) and (not isinstance(entry, dict) or isinstance(this_id, str) and isinstance(entry.get("id"), str))


def spec_import(document):
    document["$import"] = document["$import"].split("/")[0].lstrip("#")


def pre_import(document):
    return isinstance(document, dict) and isinstance(document.get("$import"), str)


def spec_types(field, entry_file, sameself):
    """type names of the file lose its name, those of other places refer to the file"""
    if isinstance(field, list):
        for entry in field:
            spec_types(entry, entry_file, sameself)
        return
    if isinstance(field, dict):
        for key, value in field.items():
            if (key == "type" or key == "items") and isinstance(value, str) and value.startswith(entry_file):
                field[key] = value[len(entry_file) + 1:] if sameself else "{d[0]}#{d[1]}".format(d=value[1:].split("/", 1))
            if isinstance(value, dict):
                spec_types(value, entry_file, sameself)
            if isinstance(value, list):
                for entry in value:
                    spec_types(entry, entry_file, sameself)


def pre_types(field, entry_file, sameself):
    return isinstance(entry_file, str) and isinstance(sameself, bool)


def make_types():
    return Rel([Contract("types", M + "rewrite_types", spec_types, pre_types, ret="N", modifies=(("field", "dct"),))])


def make():
    return Rel([Contract("id", M + "rewrite_id", spec_id, pre_id, raises=(Exception,), modifies=(("entry", "dct"),)),
                Contract("import", M + "rewrite_import", spec_import, pre_import, modifies=(("document", "dct"),))])


JOBS = [rel_job(make, n) for n in ("id", "import")] + [rel_job(make_types, "types")]

# ------------------------------------------------------------- bounded checks
IDS = ["main", "main2", "mai", "tool", "tool.cwl", "tool-b", "tool.cwl2", "x", "main.cwl", "step", "toolxcwl", "s"]


def value(rng, d=2):
    r = rng.random()
    if d == 0 or r < .5:
        return rng.choice([1, 2.5, None, True, "text", "#text", "edam:format_1", "a/b", "", "two\nlines", "yes", "1.0"])
    if r < .7:
        return [value(rng, d - 1) for _ in range(rng.randrange(3))]
    return {k: value(rng, d - 1) for k in rng.sample(["k", "m", "n", "idx"], rng.randrange(3))}


def ctype(rng, d=2):
    r = rng.random()
    if d == 0 or r < .5:
        return rng.choice(["int", "string", "File", "Directory", "Any"])
    if r < .7:
        return ["null", ctype(rng, d - 1)]
    if r < .9:
        return {"type": "array", "items": ctype(rng, d - 1)}
    return {"type": "enum", "symbols": ["p", "q"]}


def gen_packed(rng, tier):
    ids = rng.sample(IDS, rng.randrange(1, 6))
    if rng.random() < .7 and "main" not in ids:
        ids[0] = "main"
    if len({i[:-4] if i.endswith(".cwl") else i for i in ids}) < len(ids):
        ids = ids[:1]
    graph = []
    for i in ids:
        wf = rng.random() < .6
        d = {"class": "Workflow" if wf else "CommandLineTool", "id": "#" + i}
        ins = rng.sample(["a", "b", "main", "s", "tool"], rng.randrange(4))
        steps = rng.sample(["s", "step1", "step10", "main", "x"], rng.randrange(4)) if wf else []

        def port(n):
            e = {"id": f"#{i}/{n}", "type": ctype(rng)}
            if rng.random() < .3:
                e["default"] = value(rng)
            if rng.random() < .3:
                e["doc"] = rng.choice(["#" + i + "/a is a text", "doc"])
            if rng.random() < .3:
                e["format"] = rng.choice(["edam:format_1", "http://edamontology.org/format_2", "#" + rng.choice(ids) + "/fmt", ["edam:a", f"#{i}/q"]])
            return e
        d["inputs"] = [port(n) for n in ins]
        refs = [f"#{i}/{n}" for n in ins] + [f"#{i}/{s}/o" for s in steps] or [f"#{i}/nothing"]

        def src():
            return rng.choice(refs) if rng.random() < .6 else [rng.choice(refs) for _ in range(rng.randrange(4))]
        d["outputs"] = []
        for n in rng.sample(["o", "p", "out"], rng.randrange(3)):
            e = port(n)
            if wf:
                e["outputSource"] = src()
            d["outputs"].append(e)
        if wf:
            d["steps"] = []
            for s in steps:
                xs = rng.sample(["x", "y", "o"], rng.randrange(4))
                st = {"id": f"#{i}/{s}", "in": [], "out": []}
                for x in xs:
                    e = {"id": f"#{i}/{s}/{x}"}
                    if rng.random() < .8:
                        e["source"] = src()
                    if rng.random() < .3:
                        e["default"] = value(rng)
                    if rng.random() < .2:
                        e["valueFrom"] = f"$(inputs.x + '#{i}/a')"
                    if rng.random() < .1:
                        e["source"] = "#" + rng.choice(ids) + "/" + rng.choice(["a", "s/o"])
                    st["in"].append(e)
                for o in rng.sample(["o", "p", "s"], rng.randrange(3)):
                    st["out"].append(rng.choice([f"#{i}/{s}/{o}", {"id": f"#{i}/{s}/{o}"}]))
                if xs and rng.random() < .4:
                    st["scatter"] = f"#{i}/{s}/{xs[0]}" if rng.random() < .5 else [f"#{i}/{s}/{x}" for x in xs]
                st["run"] = "#" + rng.choice(ids)
                if rng.random() < .1:
                    st["run"] = {"class": "Operation", "inputs": [], "outputs": []}
                d["steps"].append({k: st[k] for k in (sorted(st) if rng.random() < .3 else st)})
        else:
            d["baseCommand"] = rng.choice(["echo", ["run", "#" + i + "/a"]])
        if rng.random() < .4:
            d["requirements"] = [{"class": "InlineJavascriptRequirement"}, {"class": "EnvVarRequirement", "envDef": value(rng)}]
        if rng.random() < .3:
            d["label"] = "#" + i
        graph.append({k: d[k] for k in (sorted(d) if rng.random() < .5 else d)})
    return {"graph": graph, "version": rng.choice(["v1.0", "v1.2"]), "format": rng.choice(["json", "yaml"]), "main": rng.choice([None, None, "wf", "wf.cwl"]), "new": rng.random() < .5}


def stem(i):
    return i[:-4] if i.endswith(".cwl") else i


def own(ref, i):
    return ref[len(i) + 2:] if isinstance(ref, str) and ref.startswith(f"#{i}/") else ref


def refer(ref, i):
    if isinstance(ref, list):
        return [own(x, i) for x in ref]
    if isinstance(ref, str) and ref.startswith("#") and "/" in ref:
        f, sub = ref[1:].split("/", 1)
        return sub if f == i else f + "#" + sub
    return ref


def split(process, i, version):
    d = copy.deepcopy(process)
    del d["id"]
    d["cwlVersion"] = version
    for p in d["inputs"] + d["outputs"]:
        p["id"] = own(p["id"], i)
        if "outputSource" in p:
            o = p["outputSource"]
            p["outputSource"] = [own(x, i) for x in o] if isinstance(o, list) else own(o, i)
        if "format" in p:
            p["format"] = refer(p["format"], i)
    for s in d.get("steps", []):
        before = s["id"]
        s["id"] = own(before, i)
        s["out"] = [dict(o, id=o["id"][len(before) + 1:]) if isinstance(o, dict) else o[len(before) + 1:] for o in s["out"]]
        for e in s["in"]:
            e["id"] = own(e["id"], i)
            if "source" in e:
                e["source"] = refer(e["source"], i)
        if "scatter" in s:
            s["scatter"] = refer(s["scatter"], i)
        if isinstance(s["run"], str):
            s["run"] = stem(s["run"][1:]) + ".cwl"
    return d


def run_packed(c):
    from ruamel.yaml.main import YAML

    root = tempfile.mkdtemp(dir=scratch())
    try:
        src = os.path.join(root, "packed.cwl")
        with open(src, "w") as h:
            json.dump({"cwlVersion": c["version"], "$graph": c["graph"]}, h)
        out = Path(root, "out")
        if not c["new"]:
            out.mkdir()
        with open(src) as h:
            gs.graph_split(h, out, c["format"], c["main"], False)
        want = {}
        for p in c["graph"]:
            i = p["id"][1:]
            name = i if i != "main" else c["main"] or "unpacked_packed.cwl"
            want[stem(name) + ".cwl"] = split(p, i, c["version"])
        got = {f: json.load(open(out / f)) if c["format"] == "json" else plain(YAML(typ="safe", pure=True).load(open(out / f))) for f in os.listdir(out)}
        if set(got) != set(want):
            return f"files {sorted(got)} instead of {sorted(want)}"
        from .p14 import differ

        return next((r for f in want for r in [differ(got[f], want[f], f, None)] if r), None)
    finally:
        shutil.rmtree(root, True)


def plain(v):
    return {k: plain(x) for k, x in v.items()} if isinstance(v, dict) else [plain(x) for x in v] if isinstance(v, list) else v


def gen_none(rng, tier):
    return {"class": "Workflow", "cwlVersion": "v1.2", "id": "#main", "steps": [], "inputs": [], "outputs": []}


def run_none(c):
    root = tempfile.mkdtemp(dir=scratch())
    try:
        src = io.StringIO(json.dumps(c))
        src.name = "x"
        import contextlib

        with contextlib.redirect_stdout(io.StringIO()):
            gs.graph_split(src, Path(root, "out"), "json", None, False)
        return "a document without a graph was split" if os.path.exists(os.path.join(root, "out")) else None
    finally:
        shutil.rmtree(root, True)


GENS = {"packed": (gen_packed, run_packed), "none": (gen_none, run_none)}
COUNTS = {"packed": 2500, "none": 8}
BUDGET, BUDGET_THOROUGH = 30, 200
