"""P06: the types inferred for steps and link sources are the declared ones, lifted."""
import importlib
from collections.abc import MutableSequence

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema, EnumSchema, RecordField, RecordSchema
from schema_salad.runtime import save, shortname
from schema_salad.utils import aslist

import cwl_utils.parser
from cwl_utils.errors import WorkflowException
from cwl_utils.parser import utils as parser_utils
from cwl_utils.utils import yaml_dumps
from pydv.rel import Contract, Rel
from pydv.sym import Exc

from . import docs, gen, p04
from .driver import rel_job
from .p11 import htext

ID = "P06"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = "_compare_type, type_for_source, type_for_step_output and type_for_step_input of all three versions are proved against assumed contracts of load_step, convert_stdstreams_to_files and param_for_source_id; the latter is checked on generated workflows (bounded)"
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}") for v in VERSIONS}
UTILS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}_utils") for v in VERSIONS}
wf, wf_field = p04.wf, p04.wf_field


def compare(a, b):
    """equal up to record and field name prefixes and the order of union members"""
    if isinstance(a, ArraySchema) and isinstance(b, ArraySchema):
        return compare(a.items, b.items)
    if isinstance(a, RecordSchema) and isinstance(b, RecordSchema):
        fa = {shortname(f.name): f.type_ for f in (a.fields or {})}
        fb = {shortname(f.name): f.type_ for f in (b.fields or {})}
        if fa.keys() != fb.keys():
            return False
        return all(compare(fa[k], fb[k]) for k in fa)
    if isinstance(a, MutableSequence) and isinstance(b, MutableSequence):
        return len(a) == len(b) and all(any(compare(x, y) for y in b) for x in a) and all(any(compare(y, x) for x in a) for y in b)
    return bool(a == b)


def pre_compare(a, b):
    return wf(a) and wf(b)


def name_of(x):
    return x.split("#")[-1].split("/")[-1]


def lifted(t, n):
    for _ in range(n):
        t = ArraySchema(items=t, type_="array")
    return t


def step_output(step, sourcename):
    run = parser_utils.load_step(step)
    parser_utils.convert_stdstreams_to_files(run)
    if run and run.outputs:
        for port in run.outputs:
            if name_of(port.id) == name_of(sourcename):
                if step.scatter is None:
                    return port.type_
                return lifted(port.type_, len(aslist(step.scatter)) if step.scatterMethod == "nested_crossproduct" else 1)
    raise ValidationException("not there")


def step_input(step, in_):
    if in_.valueFrom is not None:
        return "Any"
    run = parser_utils.load_step(step)
    parser_utils.convert_stdstreams_to_files(run)
    if run and run.inputs:
        for port in run.inputs:
            if port.id.split("#")[-1] == in_.id.split("#")[-1]:
                if step.scatter is not None and in_.id in aslist(step.scatter):
                    return ArraySchema(items=port.type_, type_="array")
                return port.type_
    return "Any"


def contexts(step):
    """how the outputs of a step are lifted: the number of scattered ports and the method"""
    if isinstance(step.scatter, str):
        return (1, step.scatterMethod or "dotproduct")
    if isinstance(step.scatter, MutableSequence):
        return (len(step.scatter), step.scatterMethod or "dotproduct")
    return None


def find_params(process, sourcenames, parent, scatter_context):
    names = [sourcenames] if isinstance(sourcenames, str) else sourcenames
    found = []
    for name in names:
        full = name.split("#")[-1]
        if not isinstance(process, cwl_utils.parser.Workflow):
            for port in process.inputs:
                if port.id.split("#")[-1] == full:
                    found.append(port)
                    scatter_context.append(None)
        for flow in ([process, parent] if parent else [process]):
            if isinstance(flow, cwl_utils.parser.Workflow):
                for port in flow.inputs:
                    if port.id.split("#")[-1] == full:
                        found.append(port)
                        scatter_context.append(None)
                for step in flow.steps:
                    if step.out and "/".join(full.split("/")[:-1]) == step.id.split("#")[-1]:
                        run = parser_utils.load_step(step)
                        parser_utils.convert_stdstreams_to_files(run)
                        for out in step.out:
                            oid = out if isinstance(out, str) else out.id
                            if name_of(oid) == full.split("/")[-1]:
                                if run and run.outputs:
                                    for port in run.outputs:
                                        if name_of(port.id) == full.split("/")[-1]:
                                            found.append(port)
                                            scatter_context.append(contexts(step))
    if len(found) == 0:
        raise WorkflowException("not there")
    return found[0] if len(found) == 1 else found


def source_type(process, sourcenames, parent, linkMerge, pickValue=None):
    ctx = []
    ps = parser_utils.param_for_source_id(process, sourcenames, parent, ctx)
    if isinstance(ps, MutableSequence):
        types = []
        for p, c in zip(ps, ctx):
            t = p if isinstance(p, str) else p.type_ if hasattr(p, "type_") else None
            if t is not None:
                if c is not None:
                    t = lifted(t, c[0] if c[1] == "nested_crossproduct" else 1)
                if not any(compare(x, t) for x in types):
                    types.append(t)
        t = types[0] if len(types) == 1 else types
        many = isinstance(sourcenames, list) and len(sourcenames) > 1
    else:
        t = ps.type_
        if ctx[0] is not None:
            t = lifted(t, ctx[0][0] if ctx[0][1] == "nested_crossproduct" else 1)
        many = False
    if linkMerge == "merge_flattened":
        t = parser_utils.merge_flatten_type(t)
    elif linkMerge == "merge_nested" or many:
        t = ArraySchema(items=t, type_="array")
    if pickValue is not None:
        if isinstance(t, ArraySchema) and pickValue in ("first_non_null", "the_only_non_null"):
            return t.items
    return t


def loaded(step):
    return None


def converted(process):
    return None


def make(v, part):
    m, u = MODS[v], UTILS[v]
    OUT = (m.CommandOutputParameter, m.ExpressionToolOutputParameter, m.WorkflowOutputParameter)
    IN = (m.InputParameter,) if v == "v1_0" else (m.CommandInputParameter, m.WorkflowInputParameter)
    PROC = (m.CommandLineTool, m.ExpressionTool, m.Workflow)

    def is_out(p):
        return isinstance(p, OUT) and isinstance(p.id, str) and p.type_ is not None

    def is_in(p):
        return isinstance(p, IN) and isinstance(p.id, str) and p.type_ is not None

    def is_process(p):
        return isinstance(p, PROC) and isinstance(p.outputs, list) and all(is_out(o) for o in p.outputs) and isinstance(p.inputs, list) and all(is_in(i) for i in p.inputs)

    def is_step(s):
        return isinstance(s, m.WorkflowStep) and (s.scatter is None or isinstance(s.scatter, str) or isinstance(s.scatter, list))

    def pre_out(step, sourcename):
        return is_step(step) and isinstance(sourcename, str)

    def pre_in(step, in_):
        return is_step(step) and isinstance(in_, m.WorkflowStepInput) and isinstance(in_.id, str)

    def is_flow(p):
        return isinstance(p, m.Workflow) and is_process(p) and isinstance(p.steps, list) and all(is_step(s) and isinstance(s.id, str) and isinstance(s.out, list) and all(is_stepout(o) for o in s.out) for s in p.steps)

    def is_stepout(o):
        return isinstance(o, str) or (isinstance(o, m.WorkflowStepOutput) and isinstance(o.id, str))

    def pre_find(process, sourcenames, parent, scatter_context):
        return is_process(process) and (not isinstance(process, m.Workflow) or is_flow(process)) and (parent is None or is_flow(parent)) and \
            isinstance(scatter_context, list) and (isinstance(sourcenames, str) or (isinstance(sourcenames, list) and all(isinstance(x, str) for x in sourcenames)))

    def pre_source(process, sourcenames, parent, linkMerge):
        return isinstance(sourcenames, (str, list))

    def pre_source2(process, sourcenames, parent, linkMerge, pickValue):
        return isinstance(sourcenames, (str, list))

    def source_type1(process, sourcenames, parent, linkMerge):
        return source_type(process, sourcenames, parent, linkMerge)

    def post_load(step, res):
        return is_process(res)

    U = f"cwl_utils.parser.cwl_{v}_utils:"
    if part == "compare":
        return Rel([Contract("compare", U + "_compare_type", compare, pre_compare, ret="B")], universe=p04.UNIVERSE, predicates=(wf, wf_field), pure=("schema_salad.runtime.shortname",))
    cs = [Contract("load_step", "cwl_utils.parser.utils:load_step", loaded, None, post=post_load, raises=(ValidationException,), trusted=True),
          Contract("convert", "cwl_utils.parser.utils:convert_stdstreams_to_files", converted, None, ret="N", raises=(ValidationException,), trusted=True),
          Contract("output", U + "type_for_step_output", step_output, pre_out, raises=(ValidationException,)),
          Contract("input", U + "type_for_step_input", step_input, pre_in, raises=(ValidationException,))]
    if part == "source":
        cs = [Contract("params", "cwl_utils.parser.utils:param_for_source_id", find_params, None, raises=(WorkflowException,), modifies=(("scatter_context", "lst"),), trusted=True),
              Contract("compare", U + "_compare_type", compare, None, ret="B", trusted=True, reads=False),
              Contract("flatten", "cwl_utils.parser.utils:merge_flatten_type", p04.spec_flatten, None, trusted=True),
              Contract("source", U + "type_for_source", *((source_type, pre_source2) if v == "v1_2" else (source_type1, pre_source)), raises=(WorkflowException,))]
        return Rel(cs, universe=OUT + IN, pure=("schema_salad.metaschema.ArraySchema",))
    if part == "params":
        cs = cs[:2] + [Contract("params", "cwl_utils.parser.utils:param_for_source_id", find_params, pre_find, raises=(WorkflowException, ValidationException))]
    return Rel(cs, universe=OUT + IN + PROC + (m.WorkflowStep, m.WorkflowStepInput, m.WorkflowStepOutput), predicates=(is_out, is_in, is_process, is_step, is_flow, is_stepout), pure=("schema_salad.metaschema.ArraySchema",), lazy={yaml_dumps: htext, save: htext})


JOBS = [rel_job(lambda v=v: make(v, "compare"), "compare", label=f"_compare_type.{v}") for v in VERSIONS]
JOBS += [rel_job(lambda v=v: make(v, "step"), p, label=f"type_for_step_{p}.{v}") for v in VERSIONS for p in ("output", "input")]
JOBS += [rel_job(lambda v=v: make(v, "source"), "source", label=f"type_for_source.{v}", timeout=300) for v in VERSIONS]
GENS = {}

# ------------------------------------------------------------- bounded checks
from . import p05  # noqa: E402


def same_type(a, b):
    """compare(), the other way round: on a canonical form"""
    return canon(a) == canon(b)


def canon(t):
    if isinstance(t, ArraySchema):
        return ("array", canon(t.items))
    if isinstance(t, RecordSchema):
        return ("record", frozenset((f.name.split("#")[-1].split("/")[-1], canon(f.type_)) for f in {f.name.split("#")[-1].split("/")[-1]: f for f in t.fields or []}.values()))
    if isinstance(t, list):
        return ("union", len(t), frozenset(canon(x) for x in t))
    if isinstance(t, EnumSchema):
        return ("enum", type(t).__name__, getattr(t, "name", None), tuple(t.symbols))
    return t


def nest(t, n):
    return ArraySchema(items=nest(t, n - 1), type_="array") if n else t


def flat(t):
    return [flat(x) for x in t] if isinstance(t, list) else t if isinstance(t, ArraySchema) else nest(t, 1)


def gen_flow(rng, tier):
    c = p05.gen_flow(rng, tier)
    for s in c["steps"]:  # scatters that have something to scatter over, several methods
        s["method"] = rng.choice([None, "dotproduct", "nested_crossproduct", "nested_crossproduct", "flat_crossproduct"])
        s["scatter"] = rng.choice([None, 1, 2, 2]) if s["ins"] else None
    srcs = list(c["wins"]) + [f"f#s{i}/o{j}" for i, s in enumerate(c["steps"]) for j in range(len(s["outs"]))]
    if srcs and rng.random() < .5:  # equal and nearly equal types
        t = rng.choice(list(c["wins"].values()) + [o for s in c["steps"] for o in s["outs"]])
        for i in range(len(c["steps"])):
            for j in range(len(c["steps"][i]["outs"])):
                if rng.random() < .5:
                    c["steps"][i]["outs"][j] = rng.choice([t, p05.tame(gen.mutate(rng, t))])
    q = []
    for _ in range(4):
        r = rng.random()
        if not srcs or r < .05:
            names = rng.choice(["f#none", ["f#none"], "f#s0/none"])
        elif r < .4:
            names = rng.choice(srcs)
        else:
            names = [rng.choice(srcs) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        q.append((names, rng.choice([None, None, "merge_nested", "merge_flattened"]), rng.choice([None, None, "first_non_null", "the_only_non_null", "all_non_null"]) if c["v"] == "v1_2" else None, rng.random() < .3))
    return dict(c, query=q)


def run_flow(case):
    flow, c = p05.make_flow(case)
    V = flow.cwlVersion
    types = {x.id: x.type_ for x in flow.inputs}
    for st, d in zip(flow.steps, c["steps"]):
        for o, decl in zip(st.out, st.run.outputs):
            oid = o if isinstance(o, str) else o.id
            t = decl.type_
            if st.scatter is not None:
                t = nest(t, (1 if isinstance(st.scatter, str) else len(st.scatter)) if st.scatterMethod == "nested_crossproduct" else 1)
            types[oid] = t
            r = expect(lambda: parser_utils.type_for_step_output(st, oid, V), t, f"type_for_step_output({oid}, scatter={st.scatter}, {st.scatterMethod})")
            if r:
                return r
        try:
            parser_utils.type_for_step_output(st, st.id + "/none", V)
            return "type_for_step_output finds an output that is not there"
        except (ValidationException, WorkflowException):
            pass
        for link, port in zip(st.in_, st.run.inputs):
            t = parser_utils.type_for_step_input(st, link, V)
            lift = st.scatter is not None and link.id in ([st.scatter] if isinstance(st.scatter, str) else st.scatter)
            if link.valueFrom is not None and t != "Any":
                return f"type_for_step_input of a port with valueFrom gives {gen.norm(t)}"
            if t != "Any" and gen.norm(t) != gen.norm(nest(port.type_, int(lift))):
                return f"type_for_step_input({link.id}) gives {gen.norm(t)}"
    for names, merge, pick, inside in c["query"]:
        listed = names if isinstance(names, list) else [names]
        proc, parent = (flow.steps[0].run, flow) if inside and flow.steps else (flow, None)
        got = gen.outcome(parser_utils.type_for_source, proc, V, names, parent, merge, pick)
        found = [types[n] for n in listed if n in types]
        what = f"type_for_source({names}, linkMerge={merge}, pickValue={pick}, scattered={[(s.id, s.scatter, s.scatterMethod) for s in flow.steps]})"
        if not found:
            if got[0] != "raise" or not issubclass(got[1], (WorkflowException, ValidationException)):
                return f"{what}: a source that does not exist gives {got}"
            continue
        if len(found) == 1:
            t, many = found[0], False
        else:
            t = []
            for x in found:
                if not any(same_type(x, y) for y in t):
                    t.append(x)
            t, many = t[0] if len(t) == 1 else t, True
        if merge == "merge_flattened":
            t = flat(t)
        elif merge == "merge_nested" or many:
            t = nest(t, 1)
        if pick in ("first_non_null", "the_only_non_null") and isinstance(t, ArraySchema):
            t = t.items
        r = gen.agree(got, ("ret", gen.norm(t)), what)
        if r:
            return r
    return None


def expect(fn, t, what):
    return gen.agree(gen.outcome(fn), ("ret", gen.norm(t)), what)


def gen_pair(rng, tier):
    a = p05.tame(gen.typ(rng, rng.choice([1, 2, 3])))
    b = a
    for _ in range(rng.choice([0, 1, 1, 2])):
        b = p05.tame(gen.mutate(rng, b))
    return rng.choice(VERSIONS), a, b


def run_pair(c):
    m = MODS[c[0]]
    a, b = gen.build(c[1], gen.classes(m, "CommandInput")), gen.build(c[2], gen.classes(m, "CommandInput"))
    return gen.same(UTILS[c[0]]._compare_type, compare, (a, b), "_compare_type") if hasattr(UTILS[c[0]], "_compare_type") else None


GENS = {"workflow": (gen_flow, run_flow), "compare": (gen_pair, run_pair)}
COUNTS = {"workflow": 8000, "compare": 20000}
BUDGET, BUDGET_THOROUGH = 15, 300
