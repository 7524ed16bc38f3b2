"""P14: inlining user defined types."""
import copy
import json
import os
import re
import shutil
import tempfile
from urllib.parse import ParseResult, urlparse

from cwl_utils import errors, schemadef, utils
from cwl_utils import types as cwl_types
from pydv.rel import Contract, Rel

from .driver import rel_job, scratch
from .p12 import copied
from .p15 import spec_to_list

ID = "P14"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); the table of definitions bounded"
NOTE = "proved: _inline_type (by kind of type, the six cases cover every value) and inline_types; assumed: load_linked_file gives content and a location and has no effect on the heap, normalize_to_list (proved in P15), a definition is copied in depth (the verifier models the copy one level deep, the table itself staying as it was is bounded); build_user_defined_type_dict is bounded (file trees in a scratch directory)"
M = "cwl_utils.schemadef:"

BUILT_IN = cwl_types.built_in_types


def loadable(cwl, port, base_url, user_defined_types):
    return isinstance(cwl, dict) and isinstance(port, str) and isinstance(base_url, ParseResult) and definitions(user_defined_types) and isinstance(cwl.get(port), list)


def spec_ports(cwl, port, base_url, user_defined_types):
    entries, where = cwl[port], base_url
    if len(entries) == 1 and isinstance(entries[0], dict) and entries[0]["id"] == "$import":
        entries, where = utils.load_linked_file(base_url, entries[0]["type"], is_import=True)
    cwl[port] = [spec_type(e, where, user_defined_types) for e in entries]
    return cwl


def definitions(t):
    return isinstance(t, dict) and all(isinstance(d, dict) for d in t.values())


def pre_type(v, base_url, user_defined_types):
    return definitions(user_defined_types)


def spec_type(v, base_url, user_defined_types):
    schemadef._inline_type_name_uniq_id += 1
    if isinstance(v, str):
        if v.endswith("[]"):
            return {"type": "array", "items": spec_type(v[:-2], base_url, user_defined_types)}
        if v.endswith("?"):
            return ["null", spec_type(v[:-1], base_url, user_defined_types)]
        if v in BUILT_IN:
            return v
        where, name = base_url, v
        if "#" in v:
            where, name = utils.resolved_path(base_url, v.split("#")[0]), v.split("#")[1]
        path = f"{where.geturl()}#{name}"
        if path not in user_defined_types:
            raise RuntimeError("unknown type")
        d = copy.deepcopy(user_defined_types[path])
        if "name" not in d:
            d["name"] = f"user_type_{schemadef._inline_type_name_uniq_id}"
        elif d["name"] in schemadef._inline_type_names:
            d["name"] = f"{d['name']}_{schemadef._inline_type_name_uniq_id}"
        else:
            schemadef._inline_type_names.add(d["name"])
        return spec_type(d, where, user_defined_types)
    if isinstance(v, list):
        return [spec_type(x, base_url, user_defined_types) for x in v]
    if not isinstance(v, dict):
        raise RuntimeError("no type")
    if v.get("$import") is not None:
        t, where = utils.load_linked_file(base_url, v["$import"], is_import=True)
        return spec_type(t, where, user_defined_types)
    t = v.get("type")
    if t is None:
        raise errors.MissingTypeName("no type name")
    if t == "enum":
        return v
    if t == "array":
        if "items" not in v:
            raise errors.ArrayMissingItems("no items")
        v["items"] = spec_type(v["items"], base_url, user_defined_types)
        return v
    if t == "record":
        if "fields" not in v:
            raise errors.RecordMissingFields("no fields")
        v["fields"] = [spec_type(f, base_url, user_defined_types) for f in utils.normalize_to_list(v["fields"], key_field="name", value_field="type")]
        return v
    if t not in BUILT_IN:
        v["type"] = spec_type(t, base_url, user_defined_types)
    return v


FAIL = (RuntimeError, KeyError, AttributeError, TypeError, ValueError, errors.MissingTypeName, errors.ArrayMissingItems, errors.RecordMissingFields)


def a_list(obj, key_field, value_field, res):
    return isinstance(res, list)


def a_name(v, base_url, user_defined_types):
    return isinstance(v, str)


def an_import(v, base_url, user_defined_types):
    return isinstance(v, dict) and v.get("$import") is not None


def an_array(v, base_url, user_defined_types):
    return isinstance(base_url, ParseResult) and isinstance(v, dict) and v.get("$import") is None and v.get("type") == "array"


def a_record(v, base_url, user_defined_types):
    return isinstance(base_url, ParseResult) and isinstance(v, dict) and v.get("$import") is None and v.get("type") == "record"


def another_map(v, base_url, user_defined_types):
    return isinstance(base_url, ParseResult) and isinstance(v, dict) and v.get("$import") is None and v.get("type") != "array" and v.get("type") != "record"


def another(v, base_url, user_defined_types):
    return not isinstance(v, (str, dict))


ONLY = {"name": a_name, "import": an_import, "array": an_array, "record": a_record, "map": another_map, "other": another}


def make(part):
    trusted = part == "ports"
    rel = Rel([
        Contract("type", M + "_inline_type", spec_type, None if trusted else pre_type, raises=FAIL, modifies=(("v", "dct"),), trusted=trusted),
        Contract("to_list", "cwl_utils.utils:normalize_to_list", spec_to_list, None, post=a_list, raises=(RuntimeError,), trusted=True),
        Contract("ports", M + "inline_types", spec_ports, loadable, raises=FAIL, modifies=(("cwl", "dct"),)),
    ], universe=(ParseResult,), effects={utils.load_linked_file: ("load_linked_file", "V", ())}, pure=("cwl_utils.utils.resolved_path", "*.geturl=S"),
        ghost=(("cwl_utils.schemadef", "_inline_type_name_uniq_id"), ("cwl_utils.schemadef", "_inline_type_names")), extra={copy.deepcopy: copied}, predicates=(definitions,))
    if part in ONLY:
        rel.contracts["type"].setup = lambda ex, st, args: [rel.truth_of(ex, st, ONLY[part], args), ex.is_set(ex.comp(st, "g:cwl_utils.schemadef._inline_type_names"))]
    return rel


JOBS = [rel_job(lambda: make("ports"), "ports", timeout=300)] + [rel_job(lambda p=p: make(p), "type", timeout=200, label=f"type.{p}") for p in ONLY]

# ------------------------------------------------------------- bounded checks
PRIM = ["int", "string", "File", "boolean", "float", "long", "double", "Directory", "null", "Any"]
FILES = ["main.cwl", "a.yml", "types/b.yml", "types/deep/c.yml", "other/d.yml"]


class Tree:
    """Definitions spread over files; a type refers only to types defined before it."""

    def __init__(self, rng):
        self.rng = rng
        self.defs = []  # (file, name, definition)
        self.single = []  # files that hold one anonymous type
        self.files = {}
        self.n = 0
        for i in range(rng.randrange(1, 6)):
            f = rng.choice(FILES)
            n = rng.choice(["rec", "arr", f"t{i}", "x_y"])
            if any(d[0] == f and d[1] == n for d in self.defs):
                n = f"t{i}"
            if rng.random() < .25:
                self.imported()
            self.defs.append((f, n, dict(self.named(f), name=n)))

    def imported(self):
        f = f"{self.rng.choice(['', 'types/', 'other/'])}one{self.n}.yml"
        self.n += 1
        self.files[f] = self.struct(f, 2) if self.rng.random() < .8 else [self.expr(f, 1), "null"]
        self.single.append(f)

    def named(self, f):
        r = self.rng.random()
        if r < .2:
            return {"type": "enum", "symbols": ["p", "q"]}
        return self.struct(f, 2)

    def struct(self, f, d):
        if self.rng.random() < .5:
            return {"type": "array", "items": self.expr(f, d - 1)}
        return {"type": "record", "fields": self.fields(f, d - 1)}

    def fields(self, f, d):
        names = self.rng.sample(["f", "g", "h"], self.rng.randrange(4))
        out = []
        for n in names:
            e = {"name": n, "type": self.expr(f, d)}
            if self.rng.random() < .3:
                e["doc"] = "text"
            out.append(e)
        if self.rng.random() < .5:
            return out
        return {e["name"]: e["type"] if not isinstance(e["type"], dict) and "doc" not in e else {k: v for k, v in e.items() if k != "name"} for e in out}

    def expr(self, f, d=2):
        rng = self.rng
        r = rng.random()
        if self.defs and r < .35:
            return self.ref(f) + rng.choice(["", "", "", "[]", "?", "[]?"])
        if d <= 0 or r < .5:
            return rng.choice(PRIM) + rng.choice(["", "", "[]", "?", "[]?", "[][]"])
        if self.single and r < .6:
            return {"$import": rel(f, rng.choice(self.single))}
        if r < .7:
            return {"type": "enum", "symbols": ["s", "t"]}
        if r < .88:
            return self.struct(f, d)
        return ["null"] + [self.expr(f, d - 1) for _ in range(rng.randrange(1, 3))]

    def ref(self, f):
        g, n, _ = self.rng.choice(self.defs)
        if g == f and self.rng.random() < .7:
            return self.rng.choice(["#", ""]) + n if n not in cwl_types.built_in_types else "#" + n
        return rel(f, g) + "#" + n


def rel(f, g):
    return os.path.relpath("/" + g, "/" + os.path.dirname(f))


def break_(rng, t):
    """make one part of a type wrong"""
    spots = []

    def walk(x):
        if isinstance(x, dict):
            spots.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(t)
    spots = [x for x in spots if "type" in x]
    if not spots:
        return
    x = rng.choice(spots)
    r = rng.random()
    if r < .3:
        x["type"] = rng.choice(["nothere", "#nothere", "a.yml#nothere", "Nothere[]"])
    elif r < .5:
        del x["type"]
    elif r < .75 and "items" in x:
        del x["items"]
    elif "fields" in x:
        del x["fields"]


def gen_case(rng, tier):
    t = Tree(rng)
    doc = {"class": "CommandLineTool", "requirements": [], "inputs": [], "outputs": []}
    for port in ("inputs", "outputs"):
        for n in rng.sample(["a", "b", "c"], rng.randrange(4)):
            ty = t.expr("main.cwl", 3)
            e = {"id": n}
            if isinstance(ty, dict) and "$import" not in ty and rng.random() < .3:
                e.update(ty)
            else:
                e["type"] = ty
            if rng.random() < .3:
                e["doc"] = "a port"
            if rng.random() < .2:
                e["default"] = {"type": "string", "items": "int"}
            doc[port].append(e)
    by = {}
    for f, n, d in t.defs:
        by.setdefault(f, []).append(d)
    entries = []
    for f, ds in by.items():
        if f == "main.cwl":
            entries += ds
            continue
        t.files[f] = ds[0] if len(ds) == 1 and rng.random() < .5 else ds
        entries.append({"$import": f})
    rng.shuffle(entries)
    whole = "main.cwl" not in by and rng.random() < .15 and entries
    if whole:
        t.files["other/req.yml"] = {"class": "SchemaDefRequirement", "types": [dict(d) for d in by.get(FILES[1], [])]}
        doc["requirements"].append({"class": "InlineJavascriptRequirement"})
        doc["requirements"].append({"$import": "other/req.yml"})
        if by.get(FILES[1]):
            doc["inputs"], doc["outputs"] = [], []  # only the table counts: its location differs
    elif entries:
        doc["requirements"].append({"class": "SchemaDefRequirement", "types": entries})
        if rng.random() < .4:
            doc["requirements"].insert(0, {"class": "InlineJavascriptRequirement"})
    if rng.random() < .2:
        break_(rng, doc["inputs"] if rng.random() < .5 or not t.defs else [rng.choice(t.defs)[2]])
    if rng.random() < .06 and doc["inputs"]:
        t.files["other/ports.yml"] = [{"id": "z", "type": "string?"}, {"id": "y", "type": {"type": "array", "items": {"type": "array", "items": "File"}}}]
        doc["inputs"] = [{"id": "$import", "type": "other/ports.yml"}]
    return {"doc": doc, "files": t.files}


def table(doc, base, read):
    """location#name -> definition"""
    out = {}
    for q in doc["requirements"]:
        if "$import" in q:
            f = join(base, q["$import"])
            got = read(f)
            if got["class"] == "SchemaDefRequirement":
                put(out, f, got["types"], read)
        elif q["class"] == "SchemaDefRequirement":
            put(out, base, q["types"], read)
    return out


def put(out, f, ts, read):
    for t in ts:
        if set(t) == {"$import"}:
            g = join(f, t["$import"])
            got = read(g)
            put(out, g, [got] if isinstance(got, dict) else got, read)
        else:
            out[f + "#" + t["name"]] = t


def join(base, link):
    return os.path.normpath(os.path.join(os.path.dirname(base), link)) if link else base


def inlined(t, base, defs, read):
    if isinstance(t, str):
        if t.endswith("[]"):
            return {"type": "array", "items": inlined(t[:-2], base, defs, read)}
        if t.endswith("?"):
            return ["null", inlined(t[:-1], base, defs, read)]
        if t in cwl_types.built_in_types:
            return t
        where, _, name = t.rpartition("#")
        f = join(base, where)
        if f + "#" + name not in defs:
            raise RuntimeError(t)
        d = defs[f + "#" + name]
        return dict(inlined(d, f, defs, read), name=Copy(d.get("name")))
    if isinstance(t, list):
        return [inlined(x, base, defs, read) for x in t]
    if "$import" in t:
        f = join(base, t["$import"])
        return inlined(read(f), f, defs, read)
    if t.get("type") is None:
        raise errors.MissingTypeName()
    if t["type"] == "enum":
        return dict(t)
    if t["type"] == "array":
        if "items" not in t:
            raise errors.ArrayMissingItems()
        return dict(t, items=inlined(t["items"], base, defs, read))
    if t["type"] == "record":
        if "fields" not in t:
            raise errors.RecordMissingFields()
        fs = t["fields"]
        if isinstance(fs, dict):
            fs = [dict(v if isinstance(v, dict) else {"type": v}, name=k) for k, v in fs.items()]
        return dict(t, fields=[inlined(f, base, defs, read) for f in fs])
    return dict(t, type=inlined(t["type"], base, defs, read))


class Copy:
    def __init__(self, name):
        self.name = name


def differ(a, b, where, seen):
    """first difference; a copy's name may carry a number"""
    if isinstance(b, Copy):
        if b.name is not None and (a == b.name or isinstance(a, str) and re.fullmatch(re.escape(b.name) + r"_\d+", a)) or b.name is None and isinstance(a, str):
            if seen is not None and a in seen:
                return f"{where}: two inlined types are called {a!r}"
            if seen is not None:
                seen.add(a)
            return None
        return f"{where}: {a!r} is no name of a copy of {b.name!r}"
    if type(a) is not type(b):
        return f"{where}: {a!r} instead of {b!r}"
    if isinstance(b, dict):
        if set(a) != set(b):
            return f"{where}: keys {sorted(a)} instead of {sorted(b)}"
        return next((r for k in b for r in [differ(a[k], b[k], f"{where}.{k}", seen)] if r), None)
    if isinstance(b, list):
        if len(a) != len(b):
            return f"{where}: {len(a)} elements instead of {len(b)}"
        return next((r for i, (x, y) in enumerate(zip(a, b)) for r in [differ(x, y, f"{where}[{i}]", seen)] if r), None)
    return None if a == b else f"{where}: {a!r} instead of {b!r}"


def outcome(fn):
    try:
        return ("ret", fn())
    except (Exception, errors.ArrayMissingItems, errors.MissingTypeName, errors.RecordMissingFields) as e:  # noqa: BLE001
        return ("raise", type(e))


def run_case(c):
    root = tempfile.mkdtemp(dir=scratch())
    try:
        for f, content in c["files"].items():
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            with open(os.path.join(root, f), "w") as h:
                json.dump(content, h)
        base = os.path.join(root, "main.cwl")

        def read(f):
            with open(f) as h:
                return json.load(h)

        want = outcome(lambda: table(c["doc"], base, read))
        doc = copy.deepcopy(c["doc"])
        got = outcome(lambda: schemadef.build_user_defined_type_dict(doc, urlparse(base)))
        if got[0] == "ret" and any("$import" in q for q in c["doc"]["requirements"]):  # the imported requirement also counts as one of the document
            got = ("ret", {k: v for k, v in got[1].items() if k in want[1] or not k.startswith(base + "#")})
        if got != want:
            return f"definitions {got} instead of {want}"
        if want[0] != "ret":
            return None
        defs = got[1]
        kept = copy.deepcopy(defs)
        for port in ("inputs", "outputs"):
            if len(c["doc"][port]) == 1 and c["doc"][port][0]["id"] == "$import":
                f = join(base, c["doc"][port][0]["type"])
                want = outcome(lambda: [inlined(v, f, kept, read) for v in read(f)])
            else:
                want = outcome(lambda: [inlined(v, base, kept, read) for v in c["doc"][port]])
            before = {k: copy.deepcopy(v) for k, v in doc.items() if k != port}
            got = outcome(lambda: schemadef.inline_types(doc, port, urlparse(base), defs))
            if got[0] != "ret" or want[0] != "ret":
                if got[0] != want[0] or got[1] != want[1]:
                    return f"{port}: {str(got)[:300]} instead of {str(want)[:300]}"
                return None
            if got[1] is not doc and got[1] != doc:
                return f"{port}: the result is not the document"
            r = differ(got[1][port], want[1], port, set())
            if r:
                return r
            if defs != kept:
                return "the table of definitions was changed"
            if {k: v for k, v in doc.items() if k != port} != before:
                return f"inlining {port} changed another part of the document"
        return None
    finally:
        shutil.rmtree(root, True)


GENS = {"trees": (gen_case, run_case)}
COUNTS = {"trees": 4000}
BUDGET, BUDGET_THOROUGH = 25, 200


def probe_imported_requirement():
    return run_case({"doc": {"class": "CommandLineTool", "requirements": [{"$import": "d/req.yml"}], "inputs": [], "outputs": []},
                     "files": {"d/req.yml": {"class": "SchemaDefRequirement", "types": [{"$import": "t.yml"}]}, "d/t.yml": [{"name": "t", "type": "enum", "symbols": ["p"]}]}}) is not None


FINDINGS = {"imported-requirement": probe_imported_requirement}
