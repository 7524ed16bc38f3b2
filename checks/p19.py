"""P19: the JSON schema generated for the inputs of a process."""
from cwl_utils import inputs_schema_gen as gen_mod
from cwl_utils import utils as cu
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
from pydv.rel import Contract, Rel

from . import docs, gen
from .driver import rel_job

ID = "P19"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = "proved: type mapping, optionality, reference collection and dependency closure; slim_definitions, generate_definition_from_schema and cwl_to_jsonschema as a whole are bounded (generated documents, an independent validity oracle); `whole` assumes a union stays well formed when null is dropped"
M = "cwl_utils.inputs_schema_gen:"
VERS = (cwl_v1_0, cwl_v1_1, cwl_v1_2)
ARRAYS = tuple(v.InputArraySchema for v in VERS)
ENUMS = tuple(v.InputEnumSchema for v in VERS)
RECORDS = tuple(v.InputRecordSchema for v in VERS)
FIELDS = tuple(v.InputRecordField for v in VERS)
JSON = {"boolean": "boolean", "string": "string", "int": "integer", "float": "number", "long": "number", "double": "number", "null": "null"}


def wft(t):
    if isinstance(t, str):
        return True
    if isinstance(t, list):
        return all(wft(x) for x in t)
    if isinstance(t, ARRAYS):
        return wft(t.items)
    if isinstance(t, RECORDS):
        return t.fields is None or (isinstance(t.fields, list) and all(wft_field(f) for f in t.fields))
    return isinstance(t, ENUMS) and isinstance(t.symbols, list) and all(isinstance(s, str) for s in t.symbols)


def wft_field(f):
    return isinstance(f, FIELDS) and isinstance(f.name, str) and wft(f.type_)


def mapped(self, type_item):
    """the JSON schema of one CWL type"""
    t = type_item
    if isinstance(t, str):
        if t in JSON:
            return {"type": JSON[t]}
        if t == "stdin":
            return {"$ref": "#/definitions/File"}
        if t == "File" or t == "Directory" or t == "Any":
            return {"$ref": f"#/definitions/{t}"}
        if cu.is_uri(t):
            return {"$ref": f"#/definitions/{cu.to_pascal_case(cu.get_value_from_uri(t))}"}
        raise ValueError("unknown")
    if isinstance(t, ARRAYS):
        return {"type": "array", "items": mapped(self, t.items)}
    if isinstance(t, ENUMS):
        return {"type": "string", "enum": [cu.get_value_from_uri(s) for s in t.symbols]}
    if isinstance(t, RECORDS):
        if t.fields is None:
            return {"type": "object"}
        return {"type": "object", "properties": {cu.get_value_from_uri(f.name): mapped(self, f.type_) for f in t.fields}}
    return {"oneOf": [mapped(self, x) for x in t]}


def choice(self, type_):
    return {"oneOf": [mapped(self, x) for x in type_]}


def whole(self):
    """the schema of a property; a null member makes it optional"""
    if isinstance(self.type_, list) and "null" in self.type_:
        self.required = False
        rest = [x for x in self.type_ if x != "null"]
        self.type_ = rest[0] if len(rest) == 1 else rest
    out = choice(self, self.type_) if isinstance(self.type_, list) else mapped(self, self.type_)
    out.update({"description": self.description})
    return out


def required(input_parameter):
    t = input_parameter.type_
    if isinstance(t, str) and t.endswith("?") or input_parameter.default is not None or isinstance(t, list) and "null" in t:
        return False
    return not (isinstance(t, RECORDS) and isinstance(t.type_, str) and t.type_.endswith("?"))


def refs(json_data, target_key):
    found = []
    if isinstance(json_data, dict):
        for k, v in json_data.items():
            if k == target_key:
                found.append(v)
            else:
                found.extend(refs(v, target_key))
    elif isinstance(json_data, list):
        for v in json_data:
            found.extend(refs(v, target_key))
    return found


def all_refs(json_object):
    return refs(json_object, "$ref")


def depends(property_dict, input_json_schema, existing_property_dependencies=None):
    seen = [] if existing_property_dependencies is None else existing_property_dependencies
    for r in all_refs(property_dict):
        name = cu.get_value_from_uri(r)
        if name not in seen:
            seen.append(name)
            depends(input_json_schema["definitions"][name], input_json_schema, seen)
    return seen


def pre_depends(property_dict, input_json_schema, existing_property_dependencies):
    return isinstance(input_json_schema, dict) and (existing_property_dependencies is None or isinstance(existing_property_dependencies, list))


def pre_all(json_object):
    return is_json(json_object)


def pre_mapped(self, type_item):
    return isinstance(self, gen_mod.JSONSchemaProperty) and wft(type_item)


def pre_choice(self, type_):
    return isinstance(self, gen_mod.JSONSchemaProperty) and isinstance(type_, list) and wft(type_)


def is_dict(self, type_, res):
    return isinstance(res, dict)


def pre_whole(self):
    return isinstance(self, gen_mod.JSONSchemaProperty) and wft(self.type_)


PORTS = (cwl_v1_0.InputParameter, cwl_v1_0.CommandInputParameter, cwl_v1_1.WorkflowInputParameter, cwl_v1_1.CommandInputParameter, cwl_v1_2.WorkflowInputParameter, cwl_v1_2.CommandInputParameter)


def pre_required(input_parameter):
    return isinstance(input_parameter, PORTS)


def is_json(j):
    if isinstance(j, dict):
        return all(is_json(v) for v in j.values())
    if isinstance(j, list):
        return all(is_json(v) for v in j)
    return j is None or isinstance(j, (str, bool, int, float))


def pre_refs(json_data, target_key):
    return isinstance(target_key, str) and is_json(json_data)


UNIVERSE = (cwl_v1_2.InputArraySchema, cwl_v1_2.CommandInputArraySchema, cwl_v1_0.CommandInputArraySchema, cwl_v1_1.InputArraySchema,
            cwl_v1_2.InputEnumSchema, cwl_v1_0.CommandInputEnumSchema, cwl_v1_2.CommandInputRecordSchema, cwl_v1_0.InputRecordSchema, cwl_v1_1.CommandInputRecordSchema,
            cwl_v1_2.InputRecordField, cwl_v1_0.CommandInputRecordField, gen_mod.JSONSchemaProperty)


def make(part):
    if part == "required":
        return Rel([Contract("required", M + "get_is_required_from_input_parameter", required, pre_required, ret="B")], universe=PORTS + UNIVERSE)
    if part == "refs":
        return Rel([Contract("refs", M + "_recursive_search", refs, pre_refs)], predicates=(is_json,))
    if part == "depends":
        return Rel([Contract("refs", M + "_recursive_search", refs, None, trusted=True, ret="V", reads=False),
                    Contract("all", M + "_get_all_ref_attributes", all_refs, None),
                    Contract("depends", M + "get_property_dependencies", depends, pre_depends, modifies=(("existing_property_dependencies", "lst"),), raises=(KeyError,))],
                   pure=("cwl_utils.utils.get_value_from_uri=S",))
    P = M + "JSONSchemaProperty."
    if part == "whole":  # the types left after dropping null are well formed as all are: not checked here
        return Rel([Contract("mapped", P + "generate_type_dict_from_type", mapped, None, post=is_dict, raises=(ValueError, TypeError), trusted=True),
                    Contract("choice", P + "generate_type_dict_from_type_list", choice, None, post=is_dict, raises=(ValueError, TypeError), trusted=True),
                    Contract("whole", P + "generate_type_dict", whole, pre_whole, raises=(ValueError, TypeError))], universe=UNIVERSE, predicates=(wft, wft_field), merge=True)
    return Rel([
        Contract("mapped", P + "generate_type_dict_from_type", mapped, pre_mapped, post=is_dict, raises=(ValueError, TypeError)),
        Contract("choice", P + "generate_type_dict_from_type_list", choice, pre_choice, post=is_dict, raises=(ValueError, TypeError)),
    ], universe=UNIVERSE, predicates=(wft, wft_field), pure=("cwl_utils.utils.to_pascal_case=S", "cwl_utils.utils.get_value_from_uri=S", "cwl_utils.utils.is_uri=B"))


JOBS = [rel_job(lambda p=p: make("types"), p) for p in ("mapped", "choice")] + [rel_job(lambda p=p: make(p), p) for p in ("whole", "required", "refs")] + [rel_job(lambda: make("depends"), p) for p in ("all", "depends")]

# ------------------------------------------------------------- bounded checks
PR = ["int", "string", "float", "long", "double", "boolean", "File", "Directory"]
NAMES = ["rec_one", "rec-two", "Thing", "kind", "arr_three", "lone"]


def gtype(rng, depth, names, uid, top=False):
    r = rng.random()
    if top and rng.random() < .12:
        return rng.choice(PR) + rng.choice(["?", "[]", "[]?"])
    if names and r < .2:
        return "#" + rng.choice(names)
    if depth <= 0 or r < .45:
        return rng.choice(PR)
    if r < .65:
        return {"type": "array", "items": gtype(rng, depth - 1, names, uid)}
    if r < .78:
        return {"type": "enum", "name": f"en{next(uid)}", "symbols": rng.sample(["p", "q", "r", "s"], rng.randrange(1, 4))}
    if r < .86:
        return {"type": "record", "name": f"ir{next(uid)}", "fields": [{"name": n, "type": gtype(rng, depth - 1, names, uid, True)} for n in rng.sample(["f1", "f_2", "f3"], rng.randrange(1, 4))]}
    out = ["null"] if rng.random() < .7 else []
    for _ in range(rng.choice([1, 2, 3])):
        t = gtype(rng, depth - 1, names, uid)
        if not isinstance(t, list) and not (isinstance(t, str) and t.endswith("?")) and t not in out:
            out.append(t)
    return out if len(out) > (out[:1] == ["null"]) else "string"


def gen_doc(rng, tier):
    import itertools
    uid = itertools.count()
    version = rng.choice(docs.VERSIONS)
    names = rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3, 4]))
    types = []
    for i, n in enumerate(names):
        k = rng.random()
        if k < .7:
            later = names if rng.random() < .5 else names[:i]
            fields = [{"name": f, "type": gtype(rng, 2, later, uid, True)} for f in rng.sample(["a", "b_c", "d"], rng.randrange(1, 4))]
            types.append({"type": "record", "name": n, "fields": fields} if rng.random() < .95 else {"type": "record", "name": n})
        elif k < .85 or version == "v1.0":
            types.append({"type": "enum", "name": n, "symbols": ["u", "v"][: rng.randrange(1, 3)]})
        else:
            types.append({"type": "array", "name": n, "items": gtype(rng, 1, names[:i], uid)})
    inputs = []
    for n in rng.sample(["x", "in_y", "in-z", "w3", "V"], rng.randrange(5)):
        t = gtype(rng, 3, names, uid, True)
        p = {"id": n, "type": t}
        if rng.random() < .2:
            p["default"] = rng.choice([0, 1, "", "s", False])
        if rng.random() < .2:
            p["doc"] = "what it is"
        inputs.append(p)
    cls = rng.choice(["CommandLineTool", "Workflow", "ExpressionTool"])
    d = {"cwlVersion": version, "class": cls, "id": "main", "inputs": inputs, "outputs": []}
    d.update({"CommandLineTool": {"baseCommand": "x"}, "Workflow": {"steps": []}, "ExpressionTool": {"expression": "$({})"}}[cls])
    rq = [{"class": "InlineJavascriptRequirement"}] if rng.random() < .5 or cls == "ExpressionTool" else []
    if types:
        rq.insert(rng.randrange(len(rq) + 1), {"class": "SchemaDefRequirement", "types": types})
    if rq:
        d["requirements"] = rq
    return d


def pascal(n):
    return "".join(x[:1].upper() + x[1:].lower() for x in n.replace("_", "-").split("-"))


def dsl(t):
    if isinstance(t, str) and t.endswith("?"):
        x = dsl(t[:-1])
        return ["null"] + (x if isinstance(x, list) else [x])
    if isinstance(t, str) and t.endswith("[]"):
        return {"type": "array", "items": dsl(t[:-2])}
    return t


def want(t):
    t = dsl(t)
    if isinstance(t, list):
        return {"oneOf": [want(x) for x in t]}
    if isinstance(t, str):
        if t.startswith("#"):
            return {"$ref": "#/definitions/" + pascal(t[1:])}
        return {"$ref": "#/definitions/" + t} if t in ("File", "Directory", "Any") else {"type": JSON[t]}
    if t["type"] == "array":
        return {"type": "array", "items": want(t["items"])}
    if t["type"] == "enum":
        return {"type": "string", "enum": t["symbols"]}
    return {"type": "object", "properties": {f["name"]: want(f["type"]) for f in t["fields"]}} if "fields" in t else {"type": "object"}


def bare(t):
    """without null"""
    t = dsl(t)
    if isinstance(t, list) and "null" in t:
        t = [x for x in t if x != "null"]
        t = t[0] if len(t) == 1 else t
    return t


def no_doc(x):
    """without descriptions; a choice of one is that one, the order of choices does not matter"""
    if isinstance(x, dict):
        x = {k: no_doc(v) for k, v in x.items() if k != "description"}
        if set(x) == {"oneOf"}:
            return x["oneOf"][0] if len(x["oneOf"]) == 1 else {"oneOf": sorted(x["oneOf"], key=repr)}
        return x
    return [no_doc(v) for v in x] if isinstance(x, list) else x


def refd(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref":
                yield v.removeprefix("#/definitions/")
            else:
                yield from refd(v)
    elif isinstance(x, list):
        for v in x:
            yield from refd(v)


def run_doc(d):
    import copy
    from cwl_utils.parser import load_document_by_yaml
    obj = load_document_by_yaml(copy.deepcopy(d), docs.URI)
    before = gen.norm(obj)
    got = gen_mod.cwl_to_jsonschema(obj)
    if gen.norm(obj) != before:
        return "the process is changed"
    if got.get("type") != "object":
        return f"the schema does not describe an object: {got.get('type')}"
    props, must = {}, []
    for p in d["inputs"]:
        t = dsl(p["type"])
        optional = "default" in p or isinstance(t, list) and "null" in t
        x = want(bare(t))
        props[p["id"]] = {"oneOf": [{"type": "null"}, x]} if optional else x
        if not optional:
            must.append(p["id"])
    props = {k: no_doc(v) for k, v in props.items()}
    if {k: no_doc(v) for k, v in got["properties"].items()} != props:
        return f"properties {no_doc(got['properties'])}, expected {props}"
    if sorted(got.get("required", [])) != sorted(must):
        return f"required inputs {got['required']}, expected {must}"
    defs = got.get("definitions", {})
    todo, used = list(refd(got["properties"])), set()
    while todo:
        n = todo.pop()
        if n in used:
            continue
        used.add(n)
        if n not in defs:
            return f"the definition of {n} is missing"
        todo.extend(refd(defs[n]))
    if set(defs) != used:
        return f"definitions {sorted(set(defs) - used)} are kept but not used"
    for r in d.get("requirements", []):
        for t in r.get("types", []):
            n = pascal(t["name"])
            if n not in used:
                continue
            if t["type"] == "record" and "fields" in t:
                x = {"type": "object", "properties": {f["name"]: want(bare(f["type"])) for f in t["fields"]},
                     "required": [f["name"] for f in t["fields"] if bare(f["type"]) == dsl(f["type"])]}
                y = no_doc(defs[n])
                y["required"], x["required"] = sorted(y.get("required", [])), sorted(x["required"])
            else:
                x, y = want(t), no_doc(defs[n])
            x = no_doc(x)
            if x != y:
                return f"definition of {n}: {y}, expected {x}"
    return None


GENS = {"document": (gen_doc, run_doc)}
COUNTS = {"document": 5000}
BUDGET, BUDGET_THOROUGH = 20, 300
