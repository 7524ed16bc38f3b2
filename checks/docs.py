"""Random CWL documents (plain dicts) for the bounded checks."""
from __future__ import annotations

from pathlib import Path

URI = Path(__file__).resolve().as_uri()  # an existing file: references into it resolve
VERSIONS = ("v1.0", "v1.1", "v1.2")
PRIM = ["int", "string", "File", "boolean", "float", "long", "double", "Directory"]


def ctype(rng, depth=2, kind="Command", io="Input", fields=True):
    """A port type as it may stand in a document."""
    r = rng.random()
    if depth == 0 or r < .4:
        return rng.choice(PRIM)
    if r < .5:
        return rng.choice(PRIM) + rng.choice(["?", "[]", "[]?"])
    if r < .68:
        return {"type": "array", "items": ctype(rng, depth - 1, kind, io, fields)}
    if r < .76:
        return {"type": "enum", "name": f"en{rng.randrange(100000)}", "symbols": rng.sample(["p", "q", "r", "s"], rng.randrange(1, 4))}
    if r < .86 and fields:
        names = rng.sample(["f1", "f2", "f3"], rng.randrange(1, 4))
        return {"type": "record", "fields": [{"name": n, "type": ctype(rng, depth - 1, kind, io, fields)} for n in names]}
    out = ["null"]
    for _ in range(rng.choice([1, 1, 2])):
        t = ctype(rng, depth - 1, kind, io, fields)
        for x in t if isinstance(t, list) else [t]:
            if x not in out and not (isinstance(x, str) and x.endswith("?")):
                out.append(x)
    return out


def req(rng, version, kinds=None):
    k = rng.choice(kinds or ["InlineJavascriptRequirement", "DockerRequirement", "EnvVarRequirement", "ResourceRequirement", "SoftwareRequirement", "ShellCommandRequirement"])
    if k == "InlineJavascriptRequirement":
        return {"class": k} if rng.random() < .6 else {"class": k, "expressionLib": [f"var x{rng.randrange(9)} = {rng.randrange(9)};"]}
    if k == "DockerRequirement":
        return {"class": k, "dockerPull": rng.choice(["debian", "debian:12", "quay.io/a/b:1.0", "alpine@sha256:ab"])}
    if k == "EnvVarRequirement":
        return {"class": k, "envDef": [{"envName": "A", "envValue": str(rng.randrange(9))}]}
    if k == "ResourceRequirement":
        return {"class": k, "coresMin": rng.randrange(1, 5)}
    if k == "SoftwareRequirement":
        return {"class": k, "packages": [{"package": rng.choice(["bwa", "samtools"]), "version": ["1.0"]}]}
    return {"class": k}


def reqs(rng, version, kinds=None):
    n = rng.choice([0, 0, 1, 2])
    out, seen = [], set()
    for _ in range(n):
        r = req(rng, version, kinds)
        if r["class"] not in seen:
            seen.add(r["class"])
            out.append(r)
    return out


def ports(rng, make, names):
    """Map or list form."""
    items = [(n, make(n)) for n in names]
    if rng.random() < .5:
        return [dict(v if isinstance(v, dict) and "type" in v and v["type"] not in ("array", "enum", "record") else {"type": v}, id=n) for n, v in items]
    return {n: ({"type": v} if isinstance(v, dict) and v["type"] in ("array", "enum", "record") else v) for n, v in items}


def common(rng, version, d, id_=None):
    if rng.random() < .9:
        d["cwlVersion"] = version
    if id_ is not None:
        d["id"] = id_
    if rng.random() < .3:
        d["doc"] = rng.choice(["text", "two\nlines"])
    if rng.random() < .3:
        d["label"] = "lab"
    for k in ("requirements", "hints"):
        r = reqs(rng, version)
        if r:
            d[k] = r if rng.random() < .6 else {x["class"]: {a: b for a, b in x.items() if a != "class"} for x in r}
    return d


def tool(rng, version, id_=None, ins=None, outs=None):
    def inp(n):
        d = {"type": ctype(rng)}
        if rng.random() < .4:
            d["inputBinding"] = {"position": rng.randrange(3)}
        if rng.random() < .2:
            d["doc"] = "port"
        if d["type"] == "int" and rng.random() < .4:
            d["default"] = rng.randrange(9)
        return d if len(d) > 1 or rng.random() < .5 else d["type"]

    def out(n):
        return {"type": rng.choice(["File", "File[]", "string", "int?", {"type": "array", "items": "File"}]), "outputBinding": {"glob": rng.choice(["*.txt", ["a", "b"], "$(inputs.x)"])}}

    d = {"class": "CommandLineTool"}
    d["inputs"] = ports(rng, inp, ins if ins is not None else rng.sample(["a", "b", "c", "d"], rng.randrange(4)))
    d["outputs"] = ports(rng, out, outs if outs is not None else rng.sample(["o", "p", "q"], rng.randrange(3)))
    if rng.random() < .8:
        d["baseCommand"] = rng.choice(["echo", ["echo", "-n"], []])
    if rng.random() < .3:
        d["arguments"] = ["x", {"valueFrom": "$(inputs.a)", "position": 1}]
    if rng.random() < .2:
        d["stdout"] = "out.txt"
    if rng.random() < .2:
        d["successCodes"] = [0, 1]
    return common(rng, version, d, id_)


def etool(rng, version, id_=None, ins=None, outs=None):
    d = {"class": "ExpressionTool", "expression": "${return {'o': 1};}", "requirements": [{"class": "InlineJavascriptRequirement"}]}
    d["inputs"] = ports(rng, lambda n: ctype(rng), ins if ins is not None else rng.sample(["a", "b", "c"], rng.randrange(3)))
    d["outputs"] = ports(rng, lambda n: ctype(rng), outs if outs is not None else rng.sample(["o", "p"], rng.randrange(3)))
    d["cwlVersion"] = version
    if id_ is not None:
        d["id"] = id_
    return d


def workflow(rng, version, id_=None, runs=None, depth=1, inline=True):
    """A workflow; `runs`: allowed run targets (strings), else embedded processes."""
    ins = rng.sample(["wa", "wb", "wc"], rng.randrange(1, 4))
    d = {"class": "Workflow"}
    d["inputs"] = ports(rng, lambda n: rng.choice(["int", "string", "File", {"type": ctype(rng)}]), ins)
    steps, outs = [], []
    for i in range(rng.randrange(4)):
        sid = f"s{i}"
        si, so = rng.sample(["a", "b", "c"], rng.randrange(3)), rng.sample(["o", "p"], rng.randrange(1, 3))
        run = rng.choice(runs) if runs else process(rng, version, None, depth - 1, si, so)
        st = {"id": sid, "run": run}

        def src():
            cand = list(ins) + [f"{o}" for o in outs]
            return rng.choice(cand)

        links = []
        for n in si:
            l = {"id": n}
            r = rng.random()
            if r < .6:
                l["source"] = src()
            elif r < .8:
                l["source"] = [src() for _ in range(rng.randrange(1, 4))]
                if rng.random() < .7:
                    l["linkMerge"] = rng.choice(["merge_nested", "merge_flattened"])
            else:
                l["valueFrom"] = "$(1)"
            if rng.random() < .2:
                l["default"] = 1
            links.append(l)
        if rng.random() < .5:
            st["in"] = links
        else:
            st["in"] = {l["id"]: ({k: v for k, v in l.items() if k != "id"} if len(l) != 2 or "source" not in l or rng.random() < .5 else l["source"]) for l in links}
        st["out"] = [o if rng.random() < .7 else {"id": o} for o in so]
        if si and rng.random() < .2:
            st["scatter"] = rng.choice(si)
            if any(x.get("class") == "StepInputExpressionRequirement" for x in d.get("requirements", [])):
                pass
        if version == "v1.2" and rng.random() < .15:
            st["when"] = "$(true)"
        outs += [f"{sid}/{o}" for o in so]
        steps.append(st)
    if rng.random() < .5:
        d["steps"] = steps
    else:
        d["steps"] = {s["id"]: {k: v for k, v in s.items() if k != "id"} for s in steps}

    def wo(n):
        c = outs + ins
        o = {"type": rng.choice(["File", "string", "Any", ctype(rng)]), "outputSource": rng.choice(c)}
        if rng.random() < .2:
            o["outputSource"] = [rng.choice(c) for _ in range(rng.randrange(1, 3))]
        return o

    d["outputs"] = ports(rng, wo, rng.sample(["x", "y", "z"], rng.randrange(3)))
    common(rng, version, d, id_)
    rs = [{"class": c} for c in ("SubworkflowFeatureRequirement", "ScatterFeatureRequirement", "MultipleInputFeatureRequirement", "StepInputExpressionRequirement", "InlineJavascriptRequirement") if rng.random() < .9]
    d["requirements"] = rs
    return d


def process(rng, version, id_=None, depth=1, ins=None, outs=None):
    r = rng.random()
    if r < .5 or (ins is not None and r < .7):
        p = tool(rng, version, id_, ins, outs)
    elif r < .75 or depth <= 0 or ins is not None:
        p = etool(rng, version, id_, ins, outs)
    else:
        p = workflow(rng, version, id_, depth=depth - 1)
    if id_ is None and ins is not None:
        p.pop("cwlVersion", None)
    return p
