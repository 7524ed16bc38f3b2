"""P10: version dispatch, graph selection, saving of lists."""
from collections.abc import MutableMapping, MutableSequence

import copy
import io
import tempfile
from pathlib import Path

import ruamel.yaml
from ruamel.yaml.comments import CommentedMap, CommentedSeq
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions, Saveable, file_uri
from schema_salad.utils import yaml_no_ts

from cwl_utils import parser
from cwl_utils.errors import GraphTargetMissingException
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
from pydv.rel import Contract, Rel

from . import docs, gen
from .driver import rel_job

ID = "P10"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); loading of files bounded"
M = "cwl_utils.parser:"
PROCESS = (cwl_v1_0.Process, cwl_v1_1.Process, cwl_v1_2.Process)
PROCESSES = tuple(getattr(m, n) for m in (cwl_v1_0, cwl_v1_1, cwl_v1_2) for n in ("CommandLineTool", "ExpressionTool", "Workflow", "Operation") if hasattr(m, n))


def spec_get(yaml, id_):
    """the entry with that id (main if none is given), ignoring its leading #."""
    want = "main" if id_ is None else id_
    for el in yaml["$graph"]:
        if el["id"].lstrip("#") == want:
            return el
    raise GraphTargetMissingException("no such entry")


def spec_version(yaml):
    if not isinstance(yaml, MutableMapping):
        raise ValidationException("map")
    return yaml["cwlVersion"] if "cwlVersion" in yaml else None


def spec_load(yaml, uri, loadingOptions=None, id_=None, load_all=False):
    version = spec_version(yaml)
    if "$graph" in yaml and not load_all:
        yaml = spec_get(yaml, id_)
        yaml["cwlVersion"] = version
    if version == "v1.0":
        r = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
    elif version == "v1.1":
        r = cwl_v1_1.load_document_by_yaml(yaml, uri, loadingOptions)
    elif version == "v1.2":
        r = cwl_v1_2.load_document_by_yaml(yaml, uri, loadingOptions)
    else:
        raise ValidationException("version")
    if not isinstance(r, MutableSequence):
        return r
    out = []
    for p in r:
        if "cwlVersion" in p.attrs:
            p.cwlVersion = version
        out.append(p)
    return out


def numbers(version):
    return [int(x) for x in version[1:].split(".")]


def spec_save(val, top=True, base_url="", relative_uris=True):
    if isinstance(val, Saveable):
        return val.save(top=top, base_url=base_url, relative_uris=relative_uris)
    if isinstance(val, MutableSequence):
        out = [spec_save(v, top, base_url, relative_uris) for v in val]
        if not (top and out and all(isinstance(v, PROCESS) for v in val)):
            return out
        vs = [e.get("cwlVersion") for e in out]
        latest = max((v for v in vs if v is not None), key=numbers)
        return {"cwlVersion": latest, "$graph": out}
    if isinstance(val, MutableMapping):
        new = {}
        for k in val:
            new[k] = spec_save(val[k], False, base_url, relative_uris)
        return new
    return val


def spec_by_string(string, uri, loadingOptions=None, id_=None, load_all=False):
    return spec_load(yaml_no_ts().load(string), uri, loadingOptions, id_, load_all)


def spec_document(doc, baseuri=None, loadingOptions=None, id_=None, load_all=False):
    if baseuri is None:
        baseuri = file_uri(str(Path.cwd())) + "/"
    if isinstance(doc, str):
        return spec_by_string(doc, baseuri, loadingOptions, id_, load_all)
    return spec_load(doc, baseuri, loadingOptions, id_, load_all)


def entry(e):
    return isinstance(e, dict) and "id" in e and isinstance(e["id"], str)


def packed(y):
    return isinstance(y, dict) and "$graph" in y and isinstance(y["$graph"], list) and all(entry(e) for e in y["$graph"])


def pre_get(yaml, id_):
    return packed(yaml) and (id_ is None or isinstance(id_, str))


def text(s):
    return isinstance(s, str)


def is_numbers(version, res):
    return isinstance(res, list)


def pre_load(yaml, uri, loadingOptions, id_, load_all):
    return ((not isinstance(yaml, dict) or (("$graph" not in yaml or packed(yaml)) and ("cwlVersion" not in yaml or yaml["cwlVersion"] is None or isinstance(yaml["cwlVersion"], str))))
            and isinstance(uri, str) and (id_ is None or isinstance(id_, str)) and isinstance(load_all, bool))


def make():
    load = [Contract(f"loader{i}", f"cwl_utils.parser.cwl_v1_{i}:load_document_by_yaml", sp, None, raises=(ValidationException,), trusted=True)
            for i, sp in enumerate((sp0, sp1, sp2))]
    return Rel([
        Contract("get_id", M + "_get_id_from_graph", spec_get, pre_get, raises=(GraphTargetMissingException,), unfold=True),
        Contract("cwl_version", M + "cwl_version", spec_version, None, raises=(ValidationException,), unfold=True),
        Contract("load", M + "load_document_by_yaml", spec_load, pre_load, raises=(ValidationException, GraphTargetMissingException)),
        Contract("version_split", M + "version_split", numbers, None, ret="R", post=is_numbers, raises=(ValueError, TypeError, AttributeError)),
        Contract("save", M + "save", spec_save, None, raises=(ValueError, AttributeError, TypeError, KeyError)),
        Contract("by_string", M + "load_document_by_string", spec_by_string, pre_by_string, raises=(ValidationException, GraphTargetMissingException)),
        Contract("document", M + "load_document", spec_document, pre_document, raises=(ValidationException, GraphTargetMissingException)),
        Contract("yaml", "schema_salad.utils:yaml_no_ts", sp_yaml, None, post=is_yaml, trusted=True),
    ] + load, universe=(ruamel.yaml.YAML, cwl_v1_0.Workflow, cwl_v1_2.CommandLineTool, cwl_v1_2.WorkflowStep), pure=("*.save", "*.load", "schema_salad.runtime.file_uri=S", "pathlib.Path.cwd"))


def pre_by_string(string, uri, loadingOptions, id_, load_all):
    return isinstance(string, str) and pre_load(yaml_no_ts().load(string), uri, loadingOptions, id_, load_all)


def pre_document(doc, baseuri, loadingOptions, id_, load_all):
    if not (baseuri is None or isinstance(baseuri, str)):
        return False
    if isinstance(doc, str):
        return pre_by_string(doc, "", loadingOptions, id_, load_all)
    return pre_load(doc, "", loadingOptions, id_, load_all)


def sp_yaml():
    return None


def is_yaml(res):
    return isinstance(res, ruamel.yaml.YAML)


def sp0(doc, uri, loadingOptions=None):
    return doc


def sp1(doc, uri, loadingOptions=None):
    return doc


def sp2(doc, uri, loadingOptions=None):
    return doc


JOBS = [rel_job(make, n, timeout=150) for n in ("get_id", "cwl_version", "load", "version_split", "save", "by_string", "document")]

# ------------------------------------------------------------- bounded checks
PARSERS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
IDS = ["main", "Xmain", "a", "ab", "a/b", "main2"]


def gen_load(rng, tier):
    version = rng.choice(docs.VERSIONS)
    shape = rng.random()
    id_, load_all = None, False
    if shape < .35:
        d = docs.process(rng, version, rng.choice([None, "main", "#main"]))
        d["cwlVersion"] = version
        if rng.random() < .3:
            id_ = rng.choice(IDS)
        load_all = rng.random() < .2
    else:
        ids = rng.sample(IDS, rng.randrange(1, 5))
        if rng.random() < .6 and "main" not in ids:
            ids.append("main")
        rng.shuffle(ids)
        d = {"$graph": [docs.process(rng, version, rng.choice(["#", "", "##"] if rng.random() < .2 else ["#", ""]) + i, depth=0) for i in ids]}
        for p in d["$graph"]:
            p.pop("cwlVersion", None)
            if rng.random() < .1:
                p["cwlVersion"] = rng.choice(docs.VERSIONS)
        d["cwlVersion"] = version
        id_ = rng.choice([None, None] + ids + ids + ["zz", "#main", "mai"])
        load_all = rng.random() < .3
    if rng.random() < .15:
        d["cwlVersion"] = rng.choice(["v1.3", "draft-3", "1.0", "v1", "", "v1.2.0", "V1.0", None])
        if d["cwlVersion"] is None:
            del d["cwlVersion"]
    if rng.random() < .03:
        d = rng.choice([[], [d], 3, None])
    return d, id_, load_all


def want_load(d, id_, load_all):
    d = copy.deepcopy(d)
    if not isinstance(d, dict):
        raise ValidationException("map")
    v = d.get("cwlVersion")
    if "$graph" in d and not load_all:
        hits = [e for e in d["$graph"] if e["id"].lstrip("#") == (id_ if id_ is not None else "main")]
        if not hits:
            raise GraphTargetMissingException("")
        d = dict(hits[0], cwlVersion=v)
    if v not in PARSERS:
        raise ValidationException("version")
    r = PARSERS[v].load_document_by_yaml(d, docs.URI, None)
    if isinstance(r, list):
        for p in r:
            p.cwlVersion = v
    return r


def either(f):
    """The two errors that may both apply are not told apart."""
    r = gen.outcome(f)
    return ("raise", Exception) if r[0] == "raise" and r[1] in (ValidationException, GraphTargetMissingException) else r


def text(d):
    y = yaml_no_ts()
    s = io.StringIO()
    y.dump(d, s)
    return s.getvalue()


def modules(r):
    rs = r if isinstance(r, list) else [r]
    return {type(x).__module__.rsplit(".", 1)[-1] for x in rs}


def run_load(c):
    d, id_, load_all = c
    bad = isinstance(d, dict) and d.get("cwlVersion") not in PARSERS
    missing = isinstance(d, dict) and "$graph" in d and not load_all and all(e["id"].lstrip("#") != (id_ or "main") for e in d["$graph"])
    out = either if bad and missing else gen.outcome
    w = out(lambda: want_load(d, id_, load_all))
    m = gen.agree(out(lambda: parser.load_document_by_yaml(copy.deepcopy(d), docs.URI, None, id_, load_all)), w, "load_document_by_yaml")
    m = m or gen.agree(out(lambda: parser.load_document(copy.deepcopy(d), docs.URI, None, id_, load_all)), w, "load_document")
    if m or not isinstance(d, dict):
        return m
    if w[0] == "ret":
        r = parser.load_document_by_yaml(copy.deepcopy(d), docs.URI, None, id_, load_all)
        if modules(r) - {"cwl_" + d["cwlVersion"].replace(".", "_")}:
            return f"objects of {modules(r)} for {d['cwlVersion']}"
        for p in r if isinstance(r, list) else [r]:
            if p.cwlVersion != d["cwlVersion"]:
                return f"a process of a {d['cwlVersion']} document carries {p.cwlVersion}"
        if isinstance(r, list) and load_all and [p.id.split("#")[-1] for p in r] != [e["id"].lstrip("#") for e in d["$graph"]]:
            return f"load_all returned {[p.id for p in r]}"
        if not isinstance(r, list) and "$graph" in d and r.id.split("#")[-1] != (id_ or "main"):
            return f"{r.id} loaded for {id_}"
    s = text(d)
    m = gen.agree(out(lambda: parser.load_document_by_string(s, docs.URI, None, id_, load_all)), w, "load_document_by_string")
    m = m or gen.agree(out(lambda: parser.load_document(s, docs.URI, None, id_, load_all)), w, "load_document(text)")
    if m or id_ == "":
        return m
    with tempfile.TemporaryDirectory() as t:
        f = Path(t) / rng_name(d)
        f.write_text(s)
        u = f.as_uri()
        w = out(lambda: parser.load_document_by_string(s, u, None, id_, load_all))
        frag = "" if id_ is None else "#" + id_
        for p in [u + frag, str(f).replace("%", "%25") .replace(" ", "%20") + frag] + ([f] if id_ is None else []):
            if id_ is not None and id_.startswith("#"):
                continue
            m = gen.agree(out(lambda: parser.load_document_by_uri(p, None, load_all)), w, f"load_document_by_uri({'path' if p is f else p[-20:]})")
            if m:
                return m
    return None


def rng_name(d):
    return ["doc.cwl", "a b.cwl", "x+y.cwl", "x.cwl"][len(d) % 4] if len(d) % 4 != 2 else "x.cwl"


def gen_save(rng, tier):
    vs = rng.choice([docs.VERSIONS, ("v1.2",), ("v1.0", "v1.2")])
    out = []
    for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
        v = rng.choice(vs)
        d = docs.process(rng, v, f"#p{i}", depth=0)
        d["cwlVersion"] = v
        out.append((d, rng.choice([None, None, None, "v1.10", "v1.9", "v2.0"]) if rng.random() < .3 else None))
    return out, rng.choice(["list", "list", "one", "nested", "mixed", "map", "scalar", "notop"]), rng.choice([True, True, False])


def run_save(c):
    ds, how, rel = c
    ps = []
    for d, v in ds:
        p = PARSERS[d["cwlVersion"]].load_document_by_yaml(copy.deepcopy(d), docs.URI, None)
        if v is not None:
            p.cwlVersion = v
        ps.append(p)
    # the first process loses its own base URL when it becomes an element
    single = lambda p, top: p.save(top=top, base_url="", relative_uris=rel)
    if how == "list":
        got = parser.save(list(ps), relative_uris=rel)
        want = [single(p, True) for p in ps]
        if not ps:
            return None if got == [] else f"save([]) is {got}"
        if set(got) != {"cwlVersion", "$graph"}:
            return f"keys {list(got)}"
        vs = [p.cwlVersion for p in ps]
        latest = max(vs, key=numbers)
        if got["cwlVersion"] != latest:
            return f"version {got['cwlVersion']} of processes with {vs}"
        if gen.norm(got["$graph"]) != gen.norm(want):
            return f"$graph is {gen.norm(got['$graph'])}"[:600]
        back = got["$graph"]
        if [b["class"] for b in back] != [type(p).__name__ for p in ps]:
            return "processes lost"
        return None
    if how == "one":
        return None if not ps or gen.norm(parser.save(ps[0], relative_uris=rel)) == gen.norm(single(ps[0], True)) else "one object is not saved as itself"
    if how == "notop":
        return None if gen.norm(parser.save(list(ps), False, "", rel)) == gen.norm([single(p, False) for p in ps]) else "an inner list is not saved element by element"
    if how == "nested":
        v, w = {"a": list(ps), "b": {"c": list(ps)}}, {"a": [single(p, False) for p in ps], "b": {"c": [single(p, False) for p in ps]}}
    elif how == "mixed":
        v, w = list(ps) + ["x"], [single(p, True) for p in ps] + ["x"]
    elif how == "map":
        v, w = {str(i): p for i, p in enumerate(ps)}, {str(i): single(p, False) for i, p in enumerate(ps)}
    else:
        v = w = [1, None, "a", {"k": 2.5, "l": [True]}]
    got = gen.norm(parser.save(v, relative_uris=rel))
    return None if got == gen.norm(w) else f"save of {how} values gives {got}"[:600]


GENS = {"load": (gen_load, run_load), "save": (gen_save, run_save)}
COUNTS = {"load": 2500, "save": 3000}
BUDGET, BUDGET_THOROUGH = 12, 150
NOTE = ("_get_id_from_graph, cwl_version, load_document_by_yaml, load_document_by_string, load_document, version_split and save are proved equal to their specification for all values "
        "(the versioned parsers, .save of objects, the YAML reader and the numeric key order of max are assumed contracts). load_document_by_uri and the versioned parsers behind it are compared on bounded random documents.")
