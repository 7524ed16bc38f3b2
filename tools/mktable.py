"""Derives the field tables checks/schema/*.json from the parser modules.  Run by
hand when the CWL schema itself changes; the checks read the committed tables as
the specification and never regenerate them."""
import ast
import json
import sys

sys.path.insert(0, "/verif")
from checks.loaders import describe  # noqa: E402


def const(n):
    return ast.literal_eval(n)


def load_call(n):
    """_load_field(_doc.get(key), loader, base, ...)"""
    for c in ast.walk(n):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "_load_field":
            key = const(c.args[0].args[0])
            assert [k.arg for k in c.keywords] == ["lc"] and const(c.keywords[0].value.args[0]) == key
            return key, ast.unparse(c.args[1]), ast.unparse(c.args[2])


def fields_of(fd):
    out = []
    sub = False
    for s in fd.body:
        if isinstance(s, ast.Assign) and ast.unparse(s.targets[0]) == "subscope_baseuri":
            sub = ast.unparse(s.value)
            continue
        required = isinstance(s, ast.Try)
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.In) and ast.unparse(s.test.comparators[0]) == "_doc":
            t = s.body[0]
        elif required:
            t = s
        else:
            continue
        asg = [x for x in t.body if isinstance(x, ast.Assign)][0]
        attr = asg.targets[0].id
        key, loader, base = load_call(asg)
        out.append({"attr": attr, "key": key, "required": required, "loader": loader, "base": base})
        if sub:
            out[-1]["subscope"] = sub
            sub = False
    return out


def saves_of(fd):
    out = []
    for s in fd.body:
        if not (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], ast.IsNot)):
            continue
        attr = s.test.left.attr
        last = s.body[-1]
        key = const(last.targets[0].slice)
        if attr == "class_":
            out.append({"attr": attr, "key": key, "how": "class", "base": next(ast.unparse(n.args[1]) for n in ast.walk(s) if isinstance(n, ast.Call) and ast.unparse(n.func) == "save_relative_uri")})
        elif isinstance(last.value, ast.Call):
            kw = {k.arg: ast.unparse(k.value) for k in last.value.keywords}
            assert ast.unparse(last.value.args[0]) == "self." + attr and kw["top"] == "False" and kw["relative_uris"] == "relative_uris", (attr, kw)
            out.append({"attr": attr, "key": key, "how": "save", "base": kw["base_url"]})
        else:
            c = s.body[0].value
            assert ast.unparse(c.args[0]) == "self." + attr and ast.unparse(c.args[4]) == "relative_uris" and c.func.id == "save_relative_uri"
            out.append({"attr": attr, "key": key, "how": "uri", "base": ast.unparse(c.args[1]), "scoped": const(c.args[2]), "ref": const(c.args[3])})
    return out


def main(v):
    import importlib

    mod = importlib.import_module(f"cwl_utils.parser.cwl_{v}")
    tree = ast.parse(open(mod.__file__).read())
    out = {}
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        ms = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}
        if "fromDoc" not in ms:
            continue
        fs, ss = fields_of(ms["fromDoc"]), saves_of(ms["save"])
        d = {"bases": [ast.unparse(b) for b in c.bases], "fields": []}
        attrs = [ast.literal_eval(s.value.args[0]) for s in c.body if isinstance(s, ast.AnnAssign) and s.target.id == "attrs"][0]
        for f in fs:
            sv = [x for x in ss if x["attr"] == f["attr"]]
            assert len(sv) == 1 and sv[0]["key"] == f["key"], (c.name, f, sv)
            f["save"] = {k: x for k, x in sv[0].items() if k not in ("attr", "key")}
            d["fields"].append(f)
        assert sorted(f["key"] for f in fs) == sorted(attrs) and len(ss) == len(fs), (c.name, attrs)
        # order of saving
        if [x["attr"] for x in ss] != [f["attr"] for f in fs]:
            d["save_order"] = [x["attr"] for x in ss]
        init = [a.arg for a in ms["__init__"].args.args[1:]]
        dflt = dict(zip(init[::-1], [ast.literal_eval(x) for x in ms["__init__"].args.defaults[::-1]]))
        d["init"] = [[a, a in dflt] for a in init]
        assert all(x is None for x in dflt.values()), (c.name, dflt)
        d["init_uuid"] = "uuid4" in ast.unparse(ms["__init__"])
        d["idx"] = "loadingOptions.idx[" in ast.unparse(ms["fromDoc"])
        d["missing_name_is_error"] = False
        for k in ("__original_id_is_none", "__original_name_is_none"):
            if k in ast.unparse(ms["fromDoc"]):
                d["identifier"] = k[len("__original_"):-len("_is_none")]
                seg = ast.unparse(ms["fromDoc"])
                i = seg.index(k + " =")
                d["identifier_code"] = seg[i:i + 420]
                d["missing_name_is_error"] = "missing" in seg[i:i + 420].split("if not")[0]
        out[c.name] = d
    used = sorted({f["loader"] for d in out.values() for f in d["fields"]})
    res = {"classes": out, "loaders": {n: describe(getattr(mod, n), mod) for n in used}, "vocab": dict(mod._vocab), "rvocab": dict(mod._rvocab)}
    json.dump(res, open(f"/verif/checks/schema/{v}.json", "w"), indent=0)
    return res


if __name__ == "__main__":
    for v in ("v1_0", "v1_1", "v1_2"):
        r = main(v)
        print(v, len(r["classes"]), len(r["loaders"]))
