"""P11: every class of the versioned parsers: loading, saving, equality, hash."""
import importlib
import copy
import io
import json
import os
import sys
import types

import pydv  # noqa: F401  (sets sys.path)
import z3
from ruamel.yaml.comments import CommentedMap
from schema_salad import runtime as rt
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions
from schema_salad.sourceline import SourceLine, add_lc_filename
from schema_salad.utils import yaml_no_ts

from pydv.logic import V, mkI, mkS
from pydv.rel import Contract, Rel
from pydv.sym import Exc, K, Tup

from . import docs, gen
from .driver import Job, rel_job
from .loaders import describe

ID = "P11"
TECHNIQUE = "contracts on the real functions of every generated class, discharged by a deductive verifier (pydv + z3)"
HERE = os.path.dirname(os.path.abspath(__file__))
VERSIONS = ("v1_0", "v1_1", "v1_2")
TABLES = {v: json.load(open(os.path.join(HERE, "schema", v + ".json"))) for v in VERSIONS}


def source(v, name, d):
    """The specification of one class, written out from its table."""
    fs = d["fields"]
    w = ["import uuid", "from ruamel.yaml.comments import CommentedMap", "from schema_salad.exceptions import ValidationException", "from schema_salad.runtime import LoadingOptions",
         f"from cwl_utils.parser import cwl_{v} as m", f"C = m.{name}", ""]
    a = w.append
    init = [(n, o) for n, o in d["init"]]
    a("def init(self, " + ", ".join(n + "=None" * o for n, o in init) + "):")
    a("    self.extension_fields = extension_fields if extension_fields else CommentedMap()")
    a("    self.loadingOptions = loadingOptions if loadingOptions else LoadingOptions()")
    params = {n for n, _ in init}
    for f in fs:
        n = f["attr"]
        if n == "class_":
            a(f"    self.class_ = {name!r}")
        elif n == d.get("identifier") and d["init_uuid"]:
            a(f"    self.{n} = {n} if {n} is not None else '_:' + str(uuid.uuid4())")
        else:
            assert n in params, (name, n)
            a(f"    self.{n} = {n}")
    a("")
    a("def eq(self, other):")
    a("    return isinstance(other, C)" + "".join(f" and self.{f['attr']} == other.{f['attr']}" for f in fs))
    a("")
    a("def hsh(self):")
    inner = ", ".join(f"self.{f['attr']}" for f in fs)
    a(f"    return hash(({inner}))" if len(fs) != 1 else f"    return hash({inner})")
    a("")
    a("def pre_self(self):")
    a("    return isinstance(self, C)")
    a("")
    a("def pre_eq(self, other):")
    a("    return isinstance(self, C)")
    a("")
    a("def save(self, top=False, base_url='', relative_uris=True):")
    a("    r = {}")
    a("    if relative_uris:")
    a("        for e in self.extension_fields:")
    a("            r[m.prefix_url(e, self.loadingOptions.vocab)] = self.extension_fields[e]")
    a("    else:")
    a("        for e in self.extension_fields:")
    a("            r[e] = self.extension_fields[e]")
    by = {f["attr"]: f for f in fs}
    for n in d.get("save_order") or [f["attr"] for f in fs]:
        f = by[n]
        s = f["save"]
        a(f"    if self.{n} is not None:")
        if s["how"] == "class":
            a("        vocab = m._vocab | self.loadingOptions.vocab")
            a("        rvocab = m._rvocab | self.loadingOptions.rvocab")
            a("        long = vocab[self.class_]")
            a("        p = rvocab.get(long[: -len(self.class_)])")
            a("        u = f'{p}:{self.class_}' if p else self.class_")
            a(f"        r[{f['key']!r}] = m.save_relative_uri(u, {s['base']}, False, None, relative_uris)")
        elif s["how"] == "save":
            a(f"        r[{f['key']!r}] = m.save(self.{n}, top=False, base_url={s['base']}, relative_uris=relative_uris)")
        else:
            a(f"        r[{f['key']!r}] = m.save_relative_uri(self.{n}, {s['base']}, {s['scoped']}, {s['ref']}, relative_uris)")
    a("    if top:")
    a("        if self.loadingOptions.namespaces:")
    a("            r['$namespaces'] = self.loadingOptions.namespaces")
    a("        if self.loadingOptions.schemas:")
    a("            r['$schemas'] = self.loadingOptions.schemas")
    a("    return r")
    a("")
    a("def pre_save(self, top, base_url, relative_uris):")
    a("    if not (isinstance(self, C) and isinstance(self.extension_fields, dict) and isinstance(self.loadingOptions, LoadingOptions)):")
    a("        return False")
    a("    o = self.loadingOptions")
    if "class_" in by:
        a(f"    if not (self.class_ == {name!r} and isinstance(o.vocab, dict) and isinstance(o.rvocab, dict)):")
        a("        return False")
        a(f"    if {name!r} in o.vocab and not isinstance(o.vocab[{name!r}], str):")
        a("        return False")
    a("    return isinstance(top, bool) and isinstance(base_url, str) and isinstance(relative_uris, bool)")
    a("")
    a("def fromDoc(cls, doc, baseuri, loadingOptions, docRoot=None):")
    a("    errors = []")
    ident = d.get("identifier")
    for f in fs:
        n, key = f["attr"], f["key"]
        if "subscope" in f:
            a("    sub = m._expand_url('run', baseuri, loadingOptions, True)")
        base = "sub" if f["base"] == "subscope_baseuri" else f["base"]
        load = f"m._load_field(doc.get({key!r}), m.{f['loader']}, {base}, loadingOptions, lc=doc.get({key!r}))"
        if n == "class_":
            a("    if doc.get('class') is None:")
            a("        raise ValidationException('missing')")
            a(f"    class_ = {load}")
            a("    vocab = m._vocab | loadingOptions.vocab")
            a(f"    if class_ != {name!r} and class_ != vocab.get({name!r}):")
            a("        raise ValidationException('class')")
            continue
        if f["required"]:
            a(f"    {n}_ok = None")
            a(f"    if doc.get({key!r}) is None:")
            a("        errors.append(ValidationException('missing'))")
            a("    else:")
            a("        try:")
            a(f"            {n}_ok = {load}")
            a("        except ValidationException:")
            a("            errors.append(ValidationException('bad'))")
        else:
            a(f"    {n}_ok = None")
            a(f"    if {key!r} in doc:")
            a("        try:")
            a(f"            {n}_ok = {load}")
            a("        except ValidationException:")
            a("            errors.append(ValidationException('bad'))")
        if n == ident:
            a(f"    given = {n}_ok is not None")
            a(f"    if {n}_ok is None:")
            a("        if docRoot is not None:")
            a(f"            {n}_ok = docRoot")
            a("        else:")
            a("            errors.append(ValidationException('missing'))" if d["missing_name_is_error"] else f"            {n}_ok = '_:' + str(uuid.uuid4())")
            a("    if given:")
            a(f"        baseuri = {n}_ok")
    keys = [f["key"] for f in fs]
    a("    ext = {}")
    a("    for k in doc.keys():")
    a(f"        if k not in {tuple(keys)!r}:")
    a("            if not k:")
    a("                errors.append(ValidationException('null'))")
    a("            elif ':' in k:")
    a("                ext[m._expand_url(k, '', loadingOptions, scoped_id=False, vocab_term=False)] = doc[k]")
    a("            else:")
    a("                errors.append(ValidationException('unknown'))")
    a("    if errors:")
    a("        raise ValidationException('')")
    a("    r = C(" + "".join(f"{f['attr']}={f['attr']}_ok, " for f in fs if f["attr"] != "class_") + "extension_fields=ext, loadingOptions=loadingOptions)")
    if d["idx"]:
        a(f"    loadingOptions.idx[{ident}_ok] = (r, loadingOptions)")
    a("    return r")
    a("")
    a("def pre_fromDoc(cls, doc, baseuri, loadingOptions, docRoot):")
    a("    if not (isinstance(doc, dict) and isinstance(baseuri, str) and isinstance(loadingOptions, LoadingOptions) and (docRoot is None or isinstance(docRoot, str))):")
    a("        return False")
    a("    if not (isinstance(loadingOptions.vocab, dict) and isinstance(loadingOptions.idx, dict) and loadingOptions.idx is not doc and loadingOptions.idx is not loadingOptions.vocab):")
    a("        return False")
    a("    return all(k is None or isinstance(k, str) for k in doc)")
    return "\n".join(w) + "\n"


def spec_module(v, name):
    """Written to a scratch file so that the verifier can extract its source."""
    key = f"p11_{v}_{name}"
    if key in sys.modules:
        return sys.modules[key]
    from .driver import scratch

    path = os.path.join(scratch(), key + ".py")
    src = source(v, name, TABLES[v]["classes"][name])
    with open(path, "w") as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(key, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[key] = mod
    spec.loader.exec_module(mod)
    return mod


def havoc(ex, st, args, kw):
    return [(st, z3.FreshConst(V, "msg"))]


def htext(ex, st, args, kw):
    return [(st, mkS(z3.FreshConst(z3.StringSort(), "msg")))]


def htriple(ex, st, args, kw):
    return [(st, Tup([mkS(z3.FreshConst(z3.StringSort(), "msg")) for _ in range(3)]))]


def error(ex, st, args, kw):
    return [(st, Exc(ValidationException))]


def field_hash(ex, st, args, kw):
    """An order-insensitive function of the hashed parts: equal objects have
    equal hashes whatever the order in which their fields are hashed."""
    a = args[0]
    vs = a.vals if isinstance(a, Tup) else [a]
    ts = sorted((ex.reify(x, st) for x in vs), key=str)
    return [(st, mkI(z3.Function(f"hash:{len(ts)}", *[V] * len(ts), z3.IntSort())(*ts)))]


def sp_load_field(val, fieldtype, baseuri, loadingOptions, lc=None):
    return val


def make(v, name):
    s = spec_module(v, name)
    p = f"cwl_utils.parser.cwl_{v}:"
    q = p + name + "."
    mod = f"cwl_utils.parser.cwl_{v}."
    return Rel([
        Contract("init", q + "__init__", s.init, None, setup=fresh_self(s.C)),
        Contract("eq", q + "__eq__", s.eq, s.pre_eq),
        Contract("hash", q + "__hash__", s.hsh, s.pre_self),
        Contract("save", q + "save", s.save, s.pre_save),
        Contract("fromDoc", q + "fromDoc", s.fromDoc, s.pre_fromDoc, raises=(ValidationException,), args={"cls": lambda ex, st, n: K(s.C)}),
        Contract("load_field", p + "_load_field", sp_load_field, None, raises=(ValidationException,), trusted=True),
    ], universe=(s.C, LoadingOptions), merge=True,
        pure=("schema_salad.runtime.save", "schema_salad.runtime.prefix_url=S", "schema_salad.runtime.save_relative_uri", mod + "_expand_url=S", "uuid.uuid4", "schema_salad.runtime.LoadingOptions"),
        extra={hash: field_hash},
        lazy={SourceLine: havoc, rt.parse_errors: htriple, rt.convert_typing: htext, rt.extract_type: htext, str: htext, ValidationException: error})


def fresh_self(C):
    def setup(ex, st, args):
        return [ex.inst(args[0], C)]
    return setup


PARTS = ("init", "eq", "hash", "save", "fromDoc")


def part_job(v, name, part):
    return rel_job(lambda: make(v, name), part, timeout=90, label=f"{v}.{name}.{part}")


JOBS = [part_job(v, n, c) for v in VERSIONS for n in TABLES[v]["classes"] for c in PARTS]



def table_job(v):
    """The loader objects, enumerations and vocabulary equal the table."""
    def run():
        mod = importlib.import_module(f"cwl_utils.parser.cwl_{v}")
        t = TABLES[v]
        bad = []
        for n, want in t["loaders"].items():
            got = json.loads(json.dumps(describe(getattr(mod, n, None), mod)))
            if got != want:
                bad.append(f"loader {n} is {got}, expected {want}"[:400])
        for n in ("vocab", "rvocab"):
            got, want = dict(getattr(mod, "_" + n)), t[n]
            if got != want:
                bad.append(f"{n} differs: {sorted(set(got.items()) ^ set(want.items()))[:4]}")
        obs = [(f"{v} tables: {n}", "proved", "evaluation", 0.0) for n in list(t["loaders"]) + ["vocab", "rvocab"]]
        return {"status": "refuted" if bad else "proved", "obligations": obs, "detail": "; ".join(bad[:3]), "functions": []}
    return Job(f"{v}.tables", run, 60)


def WARM():
    """parse the sources once, in the parent of the verifier processes"""
    from pydv import extract

    for v in VERSIONS:
        for n in TABLES[v]["classes"]:
            C = getattr(importlib.import_module(f"cwl_utils.parser.cwl_{v}"), n, None)
            if C is not None:
                extract.fn(C.fromDoc)
                spec_module(v, n)
    extract.fn(rt.Loader.load)


JOBS += [table_job(v) for v in VERSIONS]
GENERATED = {v: [n for n in TABLES[v]["classes"]] for v in VERSIONS}


# ------------------------------------------------------------- bounded checks
def value(rng, v, t, depth=2):
    """A document value for a loader structure (most of the time a valid one)."""
    k = t[0]
    if rng.random() < .03:
        return rng.choice([3, "zz", [], {}, True, None, ["q"], {"class": "Nope"}, 1.5])
    if k == "any":
        return rng.choice([1, "x", [1, "y"], {"k": 2}, True, 0.5])
    if k == "prim":
        return {"str": rng.choice(["s", "a/b", "", "x y"]), "NoneType": None, "bool": rng.random() < .5, "int": rng.randrange(-3, 9), "float": 1.25, "i32": 4, "i64": 5}.get(rng.choice(t[1:]))
    if k == "array":
        return [value(rng, v, t[1], depth - 1) for _ in range(rng.choice([0, 1, 1, 2]) if depth > 0 else 0)]
    if k == "map":
        return {x: value(rng, v, t[1], depth - 1) for x in rng.sample("abc", rng.randrange(3))}
    if k == "enum":
        return rng.choice(t[1]).rsplit("#", 1)[-1].rsplit("/", 1)[-1]
    if k == "expression":
        return rng.choice(["$(inputs.a)", "${return 1;}", "plain"])
    if k == "union":
        alts = [a for a in t[1:] if depth > 0 or a[0] in ("prim", "enum", "expression", "any", "uri")] or t[1:2]
        return value(rng, v, rng.choice(alts), depth)
    if k == "uri":
        return value(rng, v, t[1], depth)
    if k == "secondary":
        return rng.choice([".bai", "^.bai?", [".a", {"pattern": ".b", "required": rng.random() < .5}], {"pattern": ".c"}])
    if k == "typedsl":
        return rng.choice(["int", "string", "File?", "int[]", "string[]?", "Any", ["null", "File"], {"type": "array", "items": "int"}])
    if k == "idmap":
        x = value(rng, v, t[1], depth)
        if isinstance(x, list) and rng.random() < .5 and all(isinstance(e, dict) and isinstance(e.get(t[2]), str) for e in x):
            return {e[t[2]]: {a: b for a, b in e.items() if a != t[2]} for e in x}
        return x
    if k == "record":
        return document(rng, v, t[1], depth - 1)
    return rng.choice(["int", "File", None])


def document(rng, v, name, depth=2):
    d = TABLES[v]["classes"].get(name)
    if d is None:
        return {"type": "array", "items": "int"}
    out, p = {}, rng.choice([.2, .5, .9])
    L = TABLES[v]["loaders"]
    for f in d["fields"]:
        k = f["key"]
        if k == "class":
            out[k] = name
        elif k == d.get("identifier"):
            if rng.random() < (.9 if d["missing_name_is_error"] else .5):
                out[k] = rng.choice(["a", "b", "#c", "x/y"])
        elif f["required"] and rng.random() < .97 or rng.random() < p:
            x = value(rng, v, L[f["loader"]], depth)
            if x is not None or rng.random() < .2:
                out[k] = x
    items = list(out.items())
    if rng.random() < .3:
        rng.shuffle(items)
    return dict(items)


EXT = ["http://example.com/x", "ex:y", "cwl:z", "unknown", "Class", "", None]


def gen_class(rng, tier):
    v = rng.choice(VERSIONS)
    name = rng.choice(GENERATED[v])
    d = document(rng, v, name)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        d[rng.choice(EXT[:3] if rng.random() < .7 else EXT)] = rng.choice(["v", 1, {"a": 1}])
    if d and rng.random() < .08:
        d.pop(rng.choice(list(d)))
    k = [a for a in d if a not in ("class", None, "")]
    return v, name, d, rng.choice([None, "http://d/r", docs.URI + "#root"]), rng.choice([True, False]), rng.choice([True, True, False]), rng.choice(["", docs.URI, docs.URI + "#a"]), rng.choice(k) if k else None, rng.random() < .3


def options():
    return LoadingOptions(fileuri=docs.URI, namespaces={"ex": "http://e.x/"}, no_link_check=True)


def parsed(d):
    """As the YAML reader hands it over."""
    y = yaml_no_ts()
    s = io.StringIO()
    y.dump(d, s)
    r = y.load(s.getvalue())
    add_lc_filename(r, docs.URI)
    return r


def run_class(c):
    v, name, d, root, top, rel, base, field, commented = c
    mod = importlib.import_module(f"cwl_utils.parser.cwl_{v}")
    C, S = getattr(mod, name), spec_module(v, name)

    def doc():
        x = copy.deepcopy(d)
        return parsed(x) if commented else x

    def load():
        o = options()
        r = C.fromDoc(doc(), docs.URI, o, root)
        return r, {k: x[0] for k, x in o.idx.items()}

    def want():
        o = options()
        r = S.fromDoc(C, doc(), docs.URI, o, root)
        return r, {k: x[0] for k, x in o.idx.items()}
    g, w = gen.outcome(load), gen.outcome(want)
    m = gen.agree(g, w, f"{name}.fromDoc")
    if m or g[0] == "raise":
        return m
    r, q = load()[0], want()[0]
    T = TABLES[v]["classes"][name]
    keys = {f["key"]: f["attr"] for f in T["fields"]}
    for k in d:
        if k in keys and d[k] is not None and getattr(r, keys[k]) is None:
            return f"the field {k} of {name} is lost by loading"
        if k not in keys and not any(str(e).endswith(str(k).split(":")[-1]) for e in r.extension_fields):
            return f"the extension field {k} of {name} is lost by loading"
    m = gen.agree(gen.outcome(lambda: r.save(top, base, rel)), gen.outcome(lambda: S.save(q, top, base, rel)), f"{name}.save")
    if m:
        return m
    try:
        s = r.save(top, base, rel)
    except Exception:
        return None
    for f in T["fields"]:
        if (getattr(r, f["attr"]) is not None) != (f["key"] in s):
            return f"{name}.save writes {sorted(s)}, {f['attr']} is {getattr(r, f['attr'])!r}"[:400]
    for e in r.extension_fields:
        if not any(str(x).endswith(str(e).split("/")[-1].split("#")[-1].split(":")[-1]) for x in s):
            return f"extension field {e} is not saved"
    # equality: each field counts
    a = r
    for f in T["fields"]:
        b = copy.copy(a)
        setattr(b, f["attr"], ["something else"])
        if a == b or b == a:
            return f"{name}: objects with different {f['attr']} are equal"
    b = copy.copy(a)
    if not a == b:
        return f"{name}: objects with equal fields are different"
    try:
        h = hash(a), hash(a)
    except TypeError:
        h = None
    if h and h[0] != h[1]:
        return f"{name}: hash changes"
    if a == b and h and hash(b) != h[0]:
        return f"{name}: equal objects with different hashes"
    if a == object() or a == S:
        return f"{name} equals an unrelated object"
    return None


def gen_doc(rng, tier):
    v = rng.choice(docs.VERSIONS)
    d = docs.process(rng, v, rng.choice([None, "main", "#main"]))
    d["cwlVersion"] = v
    return d


def anon(v):
    """Structure up to generated identifiers."""
    def f(x):
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return "_:" + x.rsplit("_:", 1)[1] if isinstance(x, str) and "_:" in x else x
    return f(gen.norm(v))


def run_doc(d):
    mod = importlib.import_module("cwl_utils.parser.cwl_" + d["cwlVersion"].replace(".", "_"))
    a = mod.load_document_by_yaml(copy.deepcopy(d), docs.URI, None)
    # (schema_salad's save_relative_uri writes references of an identified workflow
    # in a form that resolves differently: see DESIGN.md)
    s = a.save(top=True, base_url=docs.URI, relative_uris="id" not in d)
    lost = [k for k in d if k not in s]
    if lost:
        return f"fields {lost} are lost"
    b = mod.load_document_by_yaml(s, docs.URI, None)
    if anon(a) != anon(b):
        return f"loading what was saved gives {gen.diff(anon(a), anon(b))}"[:800]
    return None


GENS = {"class": (gen_class, run_class), "doc": (gen_doc, run_doc)}
COUNTS = {"class": 16000, "doc": 1600}
BUDGET, BUDGET_THOROUGH = 30, 240
NOTE = ("__init__, __eq__, __hash__, save and fromDoc of all 187 generated classes of the three parsers are proved equal to the specification written out from the committed tables checks/schema/*.json "
        "(fields, keys, loaders, identifiers, base URLs), for all documents and objects; assumed: _load_field, _expand_url and the save functions of schema_salad.runtime (the loaders themselves belong to P12), "
        "and building an error message raises nothing. The loader objects and vocabularies are compared with the tables. Round trips through load and save are bounded random documents.")
