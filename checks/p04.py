"""P04: type assignability and link checks."""
from collections.abc import MutableSequence

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema, EnumSchema, RecordField, RecordSchema
from schema_salad.runtime import LoadingOptions, shortname

from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2, utils
from pydv.rel import Contract, Rel
from pydv import extract
from .driver import rel_job
from . import gen

ID = "P04"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("can_assign_src_to_sink, _compare_records, merge_flatten_type and check_types are proved equal to their specification for all well-formed "
        "types of any depth (recursive calls by contract, loops by coupling invariants). Trusted: pydv, z3, shortname as a pure function, "
        "LoadingOptions() as opaque; termination not proved. A bounded random comparison of the same contracts searches for failing inputs.")
U = "cwl_utils.parser.utils:"


# ------------------------------------------------------------ specifications
def spec_assign(src, sink, strict=False):
    """CWL assignability; members of unions are compared leniently."""
    if src == "Any" or sink == "Any":
        return True
    if isinstance(src, ArraySchema) and isinstance(sink, ArraySchema):
        return spec_assign(src.items, sink.items, strict)
    if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
        return spec_records(src, sink, strict)
    if isinstance(src, MutableSequence):
        if strict:
            return all(spec_assign(m, sink, False) for m in src)
        return any(m != "null" and spec_assign(m, sink, False) for m in src)
    if isinstance(sink, MutableSequence):
        return any(spec_assign(src, m, False) for m in sink)
    return src == sink


def spec_records(src, sink, strict=False):
    have = {shortname(f.name): f.type_ for f in (src.fields or [])}
    need = {shortname(f.name): f.type_ for f in (sink.fields or [])}
    for name in need:
        if not spec_assign(have.get(name, "null"), need.get(name, "null"), strict):
            return False
    return True


def spec_flatten(src):
    if isinstance(src, MutableSequence):
        return [spec_flatten(t) for t in src]
    if isinstance(src, ArraySchema):
        return src
    return ArraySchema(items=src, type_="array")


def spec_check(srctype, sinktype, linkMerge, valueFrom=None):
    if valueFrom is not None:
        return "pass"
    if linkMerge == "merge_nested":
        src = ArraySchema(items=srctype, type_="array")
    elif linkMerge == "merge_flattened":
        src = spec_flatten(srctype)
    elif linkMerge is None:
        src = srctype
    else:
        raise ValidationException("linkMerge")
    if spec_assign(src, sinktype, True):
        return "pass"
    if spec_assign(src, sinktype, False):
        return "warning"
    return "exception"


# --------------------------------------------------------- well-formed types
def wf(t):
    if isinstance(t, str):
        return True
    if isinstance(t, MutableSequence):
        return all(wf(m) for m in t)
    if isinstance(t, ArraySchema):
        return wf(t.items)
    if isinstance(t, RecordSchema):
        return t.fields is None or (isinstance(t.fields, list) and all(wf_field(f) for f in t.fields))
    return isinstance(t, EnumSchema)


def wf_field(f):
    return isinstance(f, RecordField) and isinstance(f.name, str) and f.type_ is not None and wf(f.type_)


def pre_assign(src, sink, strict):
    return wf(src) and wf(sink) and isinstance(strict, bool)


def pre_records(src, sink, strict):
    return isinstance(src, RecordSchema) and isinstance(sink, RecordSchema) and wf(src) and wf(sink) and isinstance(strict, bool)


def pre_flatten(src):
    return wf(src)


def post_flatten(src, res):
    return wf(res)


def pre_check(srctype, sinktype, linkMerge, valueFrom):
    return wf(srctype) and wf(sinktype) and (linkMerge is None or isinstance(linkMerge, str)) and (valueFrom is None or isinstance(valueFrom, str))


UNIVERSE = tuple(
    c for c in (
        cwl_v1_2.InputArraySchema, cwl_v1_2.CommandInputArraySchema, cwl_v1_2.CommandOutputArraySchema, cwl_v1_1.OutputArraySchema,
        cwl_v1_2.InputRecordSchema, cwl_v1_2.CommandOutputRecordSchema, cwl_v1_0.OutputRecordSchema,
        cwl_v1_2.InputEnumSchema, cwl_v1_2.CommandInputRecordField,
    )) + (ArraySchema, RecordSchema, EnumSchema)


def make():
    return Rel([
        Contract("assign", U + "can_assign_src_to_sink", spec_assign, pre_assign, ret="B"),
        Contract("records", U + "_compare_records", spec_records, pre_records, ret="B"),
        Contract("flatten", U + "merge_flatten_type", spec_flatten, pre_flatten, post=post_flatten),
        Contract("check", U + "check_types", spec_check, pre_check, ret="S", raises=(ValidationException,), unfold=True),
    ], universe=UNIVERSE, opaque=(LoadingOptions,), predicates=(wf, wf_field), pure=("schema_salad.runtime.shortname",))


JOBS = [rel_job(make, "assign"), rel_job(make, "records"), rel_job(make, "flatten"), rel_job(make, "check")]

# ------------------------------------------------------------- bounded checks
ROLES = [(v, r) for v in (cwl_v1_0, cwl_v1_1, cwl_v1_2) for r in ("CommandInput", "CommandOutput", "Input", "Output") if hasattr(v, r + "RecordSchema")]


def gen_pair(rng, tier):
    d = rng.choice([0, 1, 1, 2, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6])
    a = gen.typ(rng, d)
    b = a
    for _ in range(rng.choice([0, 1, 1, 2])):
        b = gen.mutate(rng, b)
    if rng.random() < .15:
        b = gen.typ(rng, d)
    if rng.random() < .5:
        a, b = b, a
    return rng.randrange(len(ROLES)), a, b, rng.choice(["merge_nested", "merge_flattened", None, None, "merge_odd", ""]), rng.choice([None, None, "$(self)", ""]), rng.randrange(len(ROLES))


def run_assign(c):
    m1, m2 = ROLES[c[0]], ROLES[c[5]]
    a, b = gen.build(c[1], gen.classes(*m1)), gen.build(c[2], gen.classes(*m2))
    for strict in (True, False):
        r = gen.same(utils.can_assign_src_to_sink, spec_assign, (a, b, strict), f"can_assign_src_to_sink(strict={strict})")
        if r:
            return r
    if gen.outcome(utils.can_assign_src_to_sink, a, b) != gen.outcome(utils.can_assign_src_to_sink, a, b, False):
        return "assignment is not lenient by default"
    return None


def run_check(c):
    m1, m2 = ROLES[c[0]], ROLES[c[5]]
    a, b = gen.build(c[1], gen.classes(*m1)), gen.build(c[2], gen.classes(*m2))
    return gen.same(utils.check_types, spec_check, (a, b, c[3], c[4]), f"check_types(linkMerge={c[3]!r}, valueFrom={c[4]!r})") or \
        gen.same(utils.merge_flatten_type, spec_flatten, (a,), "merge_flatten_type")


GENS = {"assign": (gen_pair, run_assign), "check": (gen_pair, run_check)}
COUNTS = {"assign": 30000, "check": 30000}
BUDGET, BUDGET_THOROUGH = 10, 300
