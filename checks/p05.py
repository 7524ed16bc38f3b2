"""P05: every data link of a workflow is checked."""
import importlib
from collections.abc import MutableSequence

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema
from schema_salad.sourceline import SourceLine

from schema_salad.utils import aslist

import cwl_utils.parser
from cwl_utils.parser import utils as parser_utils
from pydv.rel import Contract, Rel
from pydv.sym import Exc, K

from . import docs, gen
from .driver import rel_job

ID = "P05"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = "v1.0 and v1.1 check_all_types and the v1.2 step predicates are proved for all inputs; v1.2 check_all_types and static_checker are checked on generated links and workflows (bounded)"
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}") for v in VERSIONS}
UTILS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}_utils") for v in VERSIONS}


class At:
    """stands for a position in a document"""

    @staticmethod
    def makeError(msg):
        return msg


def at(ex, st, args, kw):
    return [(st, K(At))]


def error(ex, st, args, kw):
    return [(st, Exc(ValidationException))]


def specs(v):
    m, u = MODS[v], UTILS[v]

    def check(src_dict, sinks, type_dict):
        found = {"warning": [], "exception": []}
        for sink in sinks:
            if isinstance(sink, m.WorkflowOutputParameter):
                field = sink.outputSource
            elif isinstance(sink, m.WorkflowStepInput):
                field = sink.source
            else:
                continue
            if field is None:
                continue
            if isinstance(field, MutableSequence):
                merge = sink.linkMerge or ("merge_nested" if len(field) > 1 else None)
                sources = []
                for name in field:
                    if name not in src_dict:
                        raise ValidationException("not found")
                    sources.append(src_dict[name])
            else:
                merge = None
                if field not in src_dict:
                    raise ValidationException("not found")
                sources = [src_dict[field]]
            for src in sources:
                result = parser_utils.check_types(type_dict[src.id], type_dict[sink.id], merge, getattr(sink, "valueFrom", None))
                if result == "warning" or result == "exception":
                    found[result].append(u.SrcSink(src, sink, merge, None))
        return found

    def looped(steps, name):
        step = steps.get(name)
        if step is not None:
            for r in step.requirements or []:
                if isinstance(r, m.Loop) and r.outputMethod == "all":
                    return True
        return False

    def conditional(steps, name):
        return steps.get(name) is not None and steps[name].when is not None

    def nullable(t):
        t = aslist(t)
        return t if "null" in t else ["null"] + t

    def check2(src_dict, sinks, param_to_step, type_dict):
        found = {"warning": [], "exception": []}
        for sink in sinks:
            note = f"pickValue is {sink.pickValue}" if sink.pickValue is not None else None
            sink_type = type_dict[sink.id]
            if isinstance(sink, m.WorkflowOutputParameter):
                field = sink.outputSource
            elif isinstance(sink, m.WorkflowStepInput):
                field = sink.source
            else:
                continue
            if field is None:
                continue
            accepts = isinstance(sink_type, MutableSequence) and "null" in sink_type
            one = sink.pickValue == "first_non_null" or sink.pickValue == "the_only_non_null"
            sources, types = [], []
            if isinstance(field, MutableSequence) and len(field) != 1:
                merge = None if one else sink.linkMerge or ("merge_nested" if len(field) > 1 else None)
                for name in field:
                    if name not in src_dict:
                        raise ValidationException("not found")
                    src = src_dict[name]
                    sources.append(src)
                    t = type_dict[src.id]
                    if u._is_conditional_step(param_to_step, name) and sink.pickValue is None:
                        t = nullable(t)
                        if not accepts:
                            found["warning"].append(u.SrcSink(src, sink, merge, "Source is from conditional step, but pickValue is not used"))
                    if u._is_all_output_method_loop_step(param_to_step, name):
                        t = ArraySchema(items=t, type_="array")
                    types.append(t)
            else:
                if isinstance(field, MutableSequence):
                    name, merge = field[0], None if one else sink.linkMerge
                else:
                    name, merge = field, None
                if name not in src_dict:
                    raise ValidationException("not found")
                src = src_dict[name]
                if sink.pickValue is not None:
                    found["warning"].append(u.SrcSink(src, sink, merge, "pickValue is used but only a single input source is declared"))
                t = type_dict[src.id]
                if u._is_conditional_step(param_to_step, name):
                    t = nullable(t)
                    if not accepts:
                        found["warning"].append(u.SrcSink(src, sink, merge, "Source is from conditional step and may produce `null`"))
                if u._is_all_output_method_loop_step(param_to_step, name):
                    t = ArraySchema(items=t, type_="array")
                sources = [src]
                types = [t]
            for src, t in zip(sources, types):
                result = parser_utils.check_types(t, sink_type, merge, getattr(sink, "valueFrom", None))
                if result == "warning" or result == "exception":
                    found[result].append(u.SrcSink(src, sink, merge, note))
        return found

    def is_source(x):
        return isinstance(x, (m.WorkflowStepOutput, SRC[v])) and isinstance(x.id, str)

    def is_sink(x):
        return isinstance(x, SINK[v]) and isinstance(x.id, str)

    def is_step(x):
        return isinstance(x, m.WorkflowStep) and (x.requirements is None or isinstance(x.requirements, list))

    def pre(src_dict, sinks, type_dict):
        return isinstance(src_dict, dict) and isinstance(type_dict, dict) and isinstance(sinks, list) and all(is_sink(s) for s in sinks) and all(is_source(s) for s in src_dict.values()) and \
            all(s.id in type_dict for s in sinks) and all(s.id in type_dict for s in src_dict.values())

    def pre2(src_dict, sinks, param_to_step, type_dict):
        return pre(src_dict, sinks, type_dict) and are_steps(param_to_step)

    def pre_step(steps, name):
        return are_steps(steps)

    def are_steps(steps):
        return isinstance(steps, dict) and all(is_step(s) for s in steps.values())

    return check, check2, looped, conditional, pre, pre2, pre_step, is_source, is_sink, is_step, are_steps


SRC = {v: (MODS[v].InputParameter if v == "v1_0" else MODS[v].WorkflowInputParameter) for v in VERSIONS}
SINK = {v: (MODS[v].WorkflowOutputParameter, MODS[v].WorkflowStepInput) for v in VERSIONS}
SPECS = {v: specs(v) for v in VERSIONS}


def checked(srctype, sinktype, linkMerge, valueFrom=None):
    return "pass"


def make(v):
    check, check2, looped, conditional, pre, pre2, pre_step, is_source, is_sink, is_step, are_steps = SPECS[v]
    m, u = MODS[v], UTILS[v]
    U = f"cwl_utils.parser.cwl_{v}_utils:"
    cs = [Contract("check_types", "cwl_utils.parser.utils:check_types", checked, None, raises=(ValidationException,), trusted=True)]
    if v == "v1_2":
        cs += [Contract("looped", U + "_is_all_output_method_loop_step", looped, pre_step, ret="B"), Contract("conditional", U + "_is_conditional_step", conditional, pre_step, ret="B"),
               Contract("check", U + "check_all_types", check2, pre2, raises=(ValidationException,))]
    else:
        cs += [Contract("check", U + "check_all_types", check, pre, raises=(ValidationException,))]
    return Rel(cs, universe=(m.WorkflowStepOutput, SRC[v], *SINK[v], m.WorkflowStep) + ((m.Loop,) if v == "v1_2" else ()), predicates=(is_source, is_sink, is_step) + ((are_steps,) if v == 'v1_2' else ()),
               pure=(f"cwl_utils.parser.cwl_{v}_utils.SrcSink", "schema_salad.metaschema.ArraySchema"), lazy={SourceLine: at, At.makeError: error}, merge=True)


# check_all_types of v1.2 is not among the proved functions: its loops over merged lists of sources do
# not couple with those of the specification; it is checked on generated links only (GENS below)
JOBS = [rel_job(lambda v=v: make(v), "check", label=f"check_all_types.{v}", timeout=300) for v in ("v1_0", "v1_1")] + [rel_job(lambda p=p: make("v1_2"), p) for p in ("looped", "conditional")]

# ------------------------------------------------------------- bounded checks
from . import p04  # noqa: E402  (the independent definition of assignability)

WHICH = ("warning", "exception")


def ref_links(v, c, src_types, sink_types, verdict):
    """The links of a case in order: [(kind, source id, sink id, merge method, has message)] or None
    when a source does not exist.  Written from the statement, on the plain description."""
    out = []
    for sid, field, merge, pick, vf in c["sinks"]:
        if field is None:
            continue
        names = field if isinstance(field, list) else [field]
        many = len(names) > 1
        if isinstance(field, list):
            m = merge or ("merge_nested" if many else None)
            if v == "v1_2" and pick in ("first_non_null", "the_only_non_null"):
                m = None
        else:
            m = None
        st = sink_types[sid]
        nullok = isinstance(st, list) and "null" in st
        single = not isinstance(field, list) or len(field) == 1
        links = []
        for n in names:
            if n not in src_types:
                return None
            t = src_types[n]
            if v == "v1_2":
                if single and pick is not None:
                    out.append(("warning", n, sid, m, True))
                if n in c["cond"] and (single or pick is None):
                    t = list(t) if isinstance(t, list) else [t]
                    if "null" not in t:
                        t = ["null"] + t
                    if not nullok:
                        out.append(("warning", n, sid, m, True))
                if n in c["loop"]:
                    t = ("arrayof", t)
            links.append((n, t))
        for n, t in links:
            k = verdict(t, st, m, vf)
            if k in WHICH:
                out.append((k, n, sid, m, v == "v1_2" and pick is not None))
    return out


def lift(t):
    return ArraySchema(items=lift(t[1]), type_="array") if isinstance(t, tuple) and t[:1] == ("arrayof",) else t


def verdict(t, st, m, vf):
    return p04.spec_check(lift(t), st, m, vf)


def _mk_step(m, sid, c, names, run=None, outs=(), scatter=None, method=None, ins=()):
    kw = dict(id=sid, in_=list(ins), out=list(outs), run=run if run is not None else "x.cwl", scatter=scatter, scatterMethod=method, loadingOptions=gen.LO)
    if "when" in m.WorkflowStep.__init__.__code__.co_varnames:
        kw["when"] = "$(true)" if any(n in c["cond"] for n in names) else None
        loop = [n for n in names if n in c["loop"]]
        rq = []
        if loop or c["decoy"]:
            rq.append(m.Loop(loop=[], loopWhen="$(true)", outputMethod="all" if loop else "last", loadingOptions=gen.LO))
        if c["decoy"] > 1:
            rq.insert(0, m.InlineJavascriptRequirement(loadingOptions=gen.LO))
        kw["requirements"] = rq or None
    return m.WorkflowStep(**kw)


def tame(t):
    """without the stream shortcuts, which only tools may use"""
    return {"stdin": "File", "stdout": "File"}.get(t, t) if isinstance(t, str) else type(t)(tame(x) for x in t) if isinstance(t, (list, tuple)) else t


def small(rng):
    return tame(gen.typ(rng, rng.choice([0, 0, 1, 1, 2])))


def gen_sinks(rng, srcs, v, missing):
    sinks = []
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        pool = srcs + (["f#nowhere"] if missing and rng.random() < .3 else [])
        if not pool or r < .1:
            field = None
        elif r < .45:
            field = rng.choice(pool)
        else:
            field = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        merge = rng.choice([None, None, "merge_nested", "merge_flattened", "merge_flattened"])
        pick = rng.choice([None, None, None, "first_non_null", "the_only_non_null", "all_non_null"]) if v == "v1_2" else None
        sinks.append((f"f#sink{i}", field, merge, pick, rng.choice([None, None, None, "$(self)"])))
    return sinks


def gen_links(rng, tier):
    v = rng.choice(VERSIONS + ("v1_2",))
    srcs = [f"f#src{i}" for i in range(rng.choice([0, 1, 2, 2, 3, 4]))]
    base = small(rng)
    types = {s: rng.choice([base, tame(gen.mutate(rng, base)), small(rng)]) for s in srcs}
    sinks = gen_sinks(rng, srcs, v, rng.random() < .15)
    near = lambda: rng.choice([base, tame(gen.mutate(rng, base)), ("array", base), ("union", ["null", base]), ("union", ["null", ("array", base)]), ("array", tame(gen.mutate(rng, base))), small(rng)])
    c = {"v": v, "types": types, "sinks": sinks, "stypes": {s[0]: near() for s in sinks}, "kinds": [rng.random() < .5 for _ in sinks],
         "cond": [s for s in srcs if v == "v1_2" and rng.random() < .4], "loop": [s for s in srcs if v == "v1_2" and rng.random() < .3],
         "input": [s for s in srcs if rng.random() < .25], "decoy": rng.choice([0, 0, 1, 2])}
    c["cond"] = [s for s in c["cond"] if s not in c["input"]]
    c["loop"] = [s for s in c["loop"] if s not in c["input"]]
    return c


def run_links(c):
    v, m, u = c["v"], MODS[c["v"]], UTILS[c["v"]]
    cls = gen.classes(m, "CommandInput")
    td = {k: gen.build(t, cls) for k, t in {**c["types"], **c["stypes"]}.items()}
    srcs = {n: (SRC[v](id=n, type_=td[n], loadingOptions=gen.LO) if n in c["input"] else m.WorkflowStepOutput(id=n, loadingOptions=gen.LO)) for n in c["types"]}
    steps = {n: _mk_step(m, n + "/step", c, [n]) for n in c["types"] if n not in c["input"]}
    sinks = []
    for (sid, field, merge, pick, vf), step in zip(c["sinks"], c["kinds"]):
        field = list(field) if isinstance(field, list) else field
        kw = dict(id=sid, linkMerge=merge, loadingOptions=gen.LO)
        if v == "v1_2":
            kw["pickValue"] = pick
        sinks.append(m.WorkflowStepInput(source=field, valueFrom=vf, **kw) if step else m.WorkflowOutputParameter(type_=td[sid], outputSource=field, **kw))
    c2 = dict(c, sinks=[(a, b, x, p, vf if step else None) for (a, b, x, p, vf), step in zip(c["sinks"], c["kinds"])])
    want = ref_links(v, c2, {n: td[n] for n in c["types"]}, {s: td[s] for s in c["stypes"]}, verdict)
    before = gen.norm(td), gen.norm(sinks), list(srcs)
    args = (srcs, sinks, steps, td) if v == "v1_2" else (srcs, sinks, td)
    try:
        got = u.check_all_types(*args)
    except ValidationException as e:
        if want is not None:
            return f"check_all_types ({v}) raises {e}, every source exists"
        return None if "nowhere" in str(e) else f"the missing source is not named: {e}"
    if want is None:
        return f"check_all_types ({v}) accepts a source that does not exist"
    if (gen.norm(td), gen.norm(sinks), list(srcs)) != before:
        return f"check_all_types ({v}) changes the types or the sinks it is given"
    if sorted(got) != ["exception", "warning"]:
        return f"check_all_types ({v}) reports under {sorted(got)}"
    byid = {id(x): k for k, x in srcs.items()}
    sid = {id(x): x.id for x in sinks}
    for k in WHICH:
        a = [(k, byid.get(id(x.src)), sid.get(id(x.sink)), x.linkMerge, x.message is not None) for x in got[k]]
        b = [x for x in want if x[0] == k]
        if a != b:
            return f"check_all_types ({v}) reports {a}, expected {b}"
    return None


def gen_flow(rng, tier):
    """a workflow: inputs, steps running embedded tools, outputs"""
    v = rng.choice(VERSIONS + ("v1_2",))
    base = small(rng)
    near = lambda: rng.choice([base, base, tame(gen.mutate(rng, base)), ("array", base), ("union", ["null", base]), small(rng)])
    wins = {f"f#in{i}": near() for i in range(rng.choice([0, 1, 2, 3]))}
    steps = []
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        steps.append({"ins": [near() for _ in range(rng.choice([0, 1, 2, 2, 3]))], "outs": [near() for _ in range(rng.choice([1, 1, 2]))],
                      "scatter": rng.choice([None, None, None, 1, 2]), "method": rng.choice([None, "dotproduct", "nested_crossproduct", "flat_crossproduct"]),
                      "plain": rng.random() < .5, "cond": v == "v1_2" and rng.random() < .3, "loop": v == "v1_2" and rng.random() < .25})
    srcs = list(wins) + [f"f#s{i}/o{j}" for i, s in enumerate(steps) for j in range(len(s["outs"]))]
    missing = rng.random() < .06
    outs = gen_sinks(rng, srcs, v, missing)
    links = {}
    for i, s in enumerate(steps):
        for j in range(len(s["ins"])):
            x = (gen_sinks(rng, srcs, v, missing) or [(None, None, None, None, None)])[0]
            links[f"f#s{i}/i{j}"] = (f"f#s{i}/i{j}",) + x[1:] + (rng.random() < .3,)
    return {"v": v, "wins": wins, "steps": steps, "outs": outs, "links": links, "otypes": {s[0]: rng.choice([near(), ("array", near()), ("union", ["null", near()])]) for s in outs}, "decoy": rng.choice([0, 1, 2]), "cond": [], "loop": []}


def make_flow(c):
    v, m = c["v"], MODS[c["v"]]
    V = v.replace("_", ".")
    ci, co, wi = gen.classes(m, "CommandInput"), gen.classes(m, "CommandOutput"), gen.classes(m, "Input")
    wo = gen.classes(m, "Output") if hasattr(m, "OutputRecordSchema") else co
    LO = gen.LO
    steps = []
    c = dict(c)
    c["cond"] = [f"f#s{i}/o{j}" for i, s in enumerate(c["steps"]) for j in range(len(s["outs"])) if s["cond"]]
    c["loop"] = [f"f#s{i}/o{j}" for i, s in enumerate(c["steps"]) for j in range(len(s["outs"])) if s["loop"]]
    for i, s in enumerate(c["steps"]):
        tool = m.CommandLineTool(id=f"f#t{i}", inputs=[m.CommandInputParameter(id=f"f#t{i}/i{j}", type_=gen.build(t, ci), loadingOptions=LO) for j, t in enumerate(s["ins"])],
                                 outputs=[m.CommandOutputParameter(id=f"f#t{i}/o{j}", type_=gen.build(t, co), loadingOptions=LO) for j, t in enumerate(s["outs"])], cwlVersion=V, loadingOptions=LO)
        outs = [f"f#s{i}/o{j}" for j in range(len(s["outs"]))]
        ins = []
        for j in range(len(s["ins"])):
            sid, field, merge, pick, vf, dflt = c["links"][f"f#s{i}/i{j}"]
            kw = {"pickValue": pick} if v == "v1_2" else {}
            ins.append(m.WorkflowStepInput(id=sid, source=list(field) if isinstance(field, list) else field, linkMerge=merge, valueFrom=vf, default=3 if dflt else None, loadingOptions=LO, **kw))
        sc = None if not s["scatter"] or not ins else ins[0].id if s["scatter"] == 1 else [x.id for x in ins]
        steps.append(_mk_step(m, f"f#s{i}", c, outs, tool, [o if s["plain"] else m.WorkflowStepOutput(id=o, loadingOptions=LO) for o in outs], sc, s["method"] if sc else None, ins))
    wins = [SRC[v](id=n, type_=gen.build(t, wi), loadingOptions=LO) for n, t in c["wins"].items()]
    wouts = []
    for sid, field, merge, pick, vf in c["outs"]:
        kw = {"pickValue": pick} if v == "v1_2" else {}
        wouts.append(m.WorkflowOutputParameter(id=sid, type_=gen.build(c["otypes"][sid], wo), outputSource=list(field) if isinstance(field, list) else field, linkMerge=merge, loadingOptions=LO, **kw))
    return m.Workflow(id="f", inputs=wins, outputs=wouts, steps=steps, cwlVersion=V, loadingOptions=LO), c


def run_flow(case):
    v, m = case["v"], MODS[case["v"]]
    wf, c = make_flow(case)
    V = wf.cwlVersion
    td = {**{x.id: x.type_ for x in wf.inputs}, **{x.id: x.type_ for x in wf.outputs}}
    for st in wf.steps:
        td.update({x.id: parser_utils.type_for_step_input(st, x, V) for x in st.in_})
        for o in st.out:
            o = o if isinstance(o, str) else o.id
            td[o] = parser_utils.type_for_step_output(st, o, V)
    src = {k: td[k] for k in list(c["wins"]) + [o if isinstance(o, str) else o.id for s in wf.steps for o in s.out]}
    sinks = [tuple(l[:5]) for l in c["links"].values()]
    a = ref_links(v, dict(c, sinks=sinks), src, td, verdict)
    b = ref_links(v, dict(c, sinks=[x[:4] + (None,) for x in c["outs"]]), src, td, verdict)
    want = None if a is None or b is None else a + b
    before = gen.norm(wf)
    import io, logging  # noqa: E401
    out = io.StringIO()
    h = logging.StreamHandler(out)
    lg = logging.getLogger("cwl_utils")
    keep = lg.handlers[:], lg.propagate, logging.root.manager.disable
    lg.handlers[:], lg.propagate = [h], False
    logging.disable(logging.INFO)
    try:
        parser_utils.static_checker(wf)
        err = None
    except ValidationException as e:
        err = e
    finally:
        lg.handlers[:], lg.propagate = keep[:2]
        logging.disable(keep[2])
    if gen.norm(wf) != before:
        return "static_checker changes the workflow"
    if want is None:
        return None if err is not None and "nowhere" in str(err) else f"a source that does not exist is not reported by name: {err}"
    exc = [x for x in want if x[0] == "exception"]
    warn = [x for x in want if x[0] == "warning"]
    if exc and err is None:
        return f"static_checker ({V}) accepts the workflow in spite of {exc}"
    if not exc and err is not None:
        return f"static_checker ({V}) rejects a workflow without incompatible links: {err}"
    short = lambda n: n.split("#")[-1].split("/")[-1]
    for kind, n, sid, merge, msg in exc:
        if f"'{short(n)}'" not in str(err) or f"'{short(sid)}'" not in str(err):
            return f"static_checker ({V}) does not name the incompatible link {n} -> {sid}: {err}"
    if bool(warn) != bool(out.getvalue()):
        return f"static_checker ({V}) warns {out.getvalue()!r}, expected {warn}"
    for kind, n, sid, merge, msg in warn:
        if f"'{short(n)}'" not in out.getvalue() or f"'{short(sid)}'" not in out.getvalue():
            return f"static_checker ({V}) does not warn about the link {n} -> {sid}: {out.getvalue()}"
    return None


GENS = {"links": (gen_links, run_links), "workflow": (gen_flow, run_flow)}
COUNTS = {"links": 20000, "workflow": 8000}
BUDGET, BUDGET_THOROUGH = 15, 300
