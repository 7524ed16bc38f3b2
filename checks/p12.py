"""P12: the generic loaders: type and secondary file shorthands, maps for lists, lists, unions."""
import copy
import importlib
import json
import os

import pydv  # noqa: F401
from ruamel.yaml.comments import CommentedMap
from schema_salad import runtime as rt
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions
from schema_salad.sourceline import SourceLine

from pydv.rel import Contract, Rel
from pydv.sym import K

from . import docs, gen
from .driver import rel_job
from .p11 import error, havoc, htext

ID = "P12"
TECHNIQUE = "contracts on the real functions of the generic loaders, discharged by a deductive verifier (pydv + z3)"
NOTE = ("load of every generic loader (any, primitive, enum, expression, list, map, record, union, URI, type shorthand, secondary files, id map, proxy) and the resolution of type shorthands are proved equal to their "
        "specification in each version, for every document. Nested loaders are taken by the contract of Loader.load (dynamic dispatch), URL expansion, imports and the fetcher are assumed functions, error texts are not compared, "
        "loops are related by coupling invariants. That documents written with shorthands load to the same objects as their long forms is compared on bounded random documents.")
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}") for v in VERSIONS}


def specs(v):
    m = MODS[v]
    L = LoadingOptions

    class S:
        def any_(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if doc is None:
                raise ValidationException("null")
            return doc

        def pre_any(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._AnyLoader)

        def primitive(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if isinstance(doc, self.tp):
                return doc
            raise ValidationException("type")

        def enum(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if doc in self.symbols:
                return doc
            raise ValidationException("symbol")

        def pre_enum(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._EnumLoader) and isinstance(self.symbols, tuple)

        def expression(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if isinstance(doc, str):
                return doc
            raise ValidationException("str")

        def pre_expression(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._ExpressionLoader)

        def array(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if not isinstance(doc, list):
                raise ValidationException("list")
            out, bad, ids = [], [], []
            for i in range(len(doc)):
                try:
                    x = m._load_field(doc[i], m._UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc)
                    if isinstance(x, list) and loadingOptions.container != "@list":
                        out.extend(x)
                    else:
                        out.append(x)
                    if isinstance(doc[i], CommentedMap) and doc[i].get("id") is not None:
                        if doc[i].get("id") in ids:
                            bad.append(ValidationException("duplicate"))
                        else:
                            ids.append(doc[i].get("id"))
                except ValidationException:
                    bad.append(ValidationException("item"))
            if bad:
                raise ValidationException("items")
            return out

        def pre_array(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._ArrayLoader) and isinstance(self.items, rt.Loader) and isinstance(loadingOptions, L)

        def map_(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if not isinstance(doc, dict):
                raise ValidationException("map")
            if self.container is not None or self.no_link_check is not None:
                loadingOptions = L(copyfrom=loadingOptions, container=self.container, no_link_check=self.no_link_check)
            out, bad = {}, []
            for k, v in doc.items():
                try:
                    out[k] = m._load_field(v, self.values, baseuri, loadingOptions, lc)
                except ValidationException:
                    bad.append(ValidationException("entry"))
            if bad:
                raise ValidationException("entries")
            return out

        def pre_map(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._MapLoader) and isinstance(self.values, rt.Loader) and isinstance(loadingOptions, L)

        def record(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if not isinstance(doc, dict):
                raise ValidationException("map")
            if self.container is not None or self.no_link_check is not None:
                loadingOptions = L(copyfrom=loadingOptions, container=self.container, no_link_check=self.no_link_check)
            return self.classtype.fromDoc(doc, baseuri, loadingOptions, docRoot=docRoot)

        def pre_record(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._RecordLoader) and isinstance(loadingOptions, L)

        def union(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if lc is None:
                lc = []
            for t in self.alternates:
                try:
                    return t.load(doc, baseuri, loadingOptions, docRoot=docRoot, lc=lc)
                except ValidationException:
                    pass
            raise ValidationException("no alternative")

        def pre_union(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._UnionLoader) and isinstance(self.alternates, list) and all(isinstance(t, rt.Loader) for t in self.alternates) and isinstance(baseuri, str) and isinstance(loadingOptions, L) and \
                (lc is None or isinstance(lc, (list, dict))) and (not isinstance(doc, dict) or all(isinstance(k, str) for k in doc))

        def uri(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if self.no_link_check is not None:
                loadingOptions = L(copyfrom=loadingOptions, no_link_check=self.no_link_check)
            if isinstance(doc, list):
                out = []
                for x in doc:
                    if isinstance(x, str):
                        out.append(m._expand_url(x, baseuri, loadingOptions, self.scoped_id, self.vocab_term, self.scoped_ref))
                    else:
                        out.append(x)
                doc = out
            elif isinstance(doc, str):
                doc = m._expand_url(doc, baseuri, loadingOptions, self.scoped_id, self.vocab_term, self.scoped_ref)
                if not loadingOptions.no_link_check:
                    missing = False
                    try:
                        missing = not loadingOptions.fetcher.check_exists(doc)
                    except ValidationException:
                        pass
                    if missing:
                        raise ValidationException("undefined reference")
            return self.inner.load(doc, baseuri, loadingOptions, lc=lc)

        def pre_uri(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._URILoader) and isinstance(self.inner, rt.Loader) and isinstance(loadingOptions, L) and isinstance(loadingOptions.fetcher, Fetcher) and isinstance(baseuri, str)

        def resolve(self, doc, baseuri, loadingOptions):
            name = doc
            optional = name.endswith("?")
            if optional:
                name = name[:-1]
            if name.endswith("[]"):
                rest = name[:-2]
                if rest.endswith("[]"):
                    return doc
                items = m._expand_url(rest, baseuri, loadingOptions, False, True, self.refScope)
                res = {"type": "array", "items": items}
            else:
                res = m._expand_url(name, baseuri, loadingOptions, False, True, self.refScope)
            if optional:
                return ["null", res]
            return res

        def pre_resolve(self, doc, baseuri, loadingOptions):
            return isinstance(doc, str) and isinstance(baseuri, str) and isinstance(loadingOptions, L)

        def typedsl(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if isinstance(doc, str):
                doc = self.resolve(doc, baseuri, loadingOptions)
            elif isinstance(doc, list):
                out = []
                for d in doc:
                    if isinstance(d, str):
                        t = self.resolve(d, baseuri, loadingOptions)
                        if isinstance(t, list):
                            for x in t:
                                if x not in out:
                                    out.append(x)
                        elif t not in out:
                            out.append(t)
                    else:
                        out.append(d)
                doc = out
            return self.inner.load(doc, baseuri, loadingOptions, lc=lc)

        def pre_typedsl(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(baseuri, str) and isinstance(loadingOptions, L)

        def entry(d):
            """a map: its pattern and whether it is required, and nothing else"""
            rest = d.copy()
            if "pattern" not in rest:
                raise ValidationException("pattern")
            e = {"pattern": rest.pop("pattern"), "required": rest.pop("required") if "required" in rest else None}
            if rest:
                raise ValidationException("other")
            return e

        def secondary(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if isinstance(doc, list):
                out = []
                for d in doc:
                    if isinstance(d, str):
                        out.append({"pattern": d[:-1], "required": False} if d.endswith("?") else {"pattern": d})
                    elif isinstance(d, dict):
                        out.append(S.entry(d))
                    else:
                        raise ValidationException("kind")
            elif isinstance(doc, dict):
                out = [S.entry(doc)]
            elif isinstance(doc, str):
                out = [{"pattern": doc[:-1], "required": False} if doc.endswith("?") else {"pattern": doc}]
            else:
                raise ValidationException("kind")
            return self.inner.load(out, baseuri, loadingOptions, docRoot, lc=lc)

        def pre_secondary(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._SecondaryDSLLoader) and isinstance(self.inner, rt.Loader) and isinstance(loadingOptions, L)

        def idmap(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            if not isinstance(doc, dict):
                return self.inner.load(doc, baseuri, loadingOptions, lc=lc)
            out = []
            for k, v in doc.items():
                if isinstance(v, dict):
                    e = v.copy()
                    e[self.mapSubject] = k
                elif self.mapPredicate:
                    e = {self.mapPredicate: v}
                    e[self.mapSubject] = k
                else:
                    raise ValidationException("no predicate")
                out.append(e)
            return self.inner.load(out, baseuri, loadingOptions, lc=lc)

        def pre_idmap(self, doc, baseuri, loadingOptions, docRoot, lc):
            return isinstance(self, m._IdMapLoader) and isinstance(self.inner, rt.Loader) and isinstance(self.mapSubject, str) and (self.mapPredicate is None or isinstance(self.mapPredicate, str)) and \
                isinstance(loadingOptions, L)

        def load(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
            return doc

        def load_field(val, fieldtype, baseuri, loadingOptions, lc=None):
            return val

        def check_exists(self, url):
            return True

        def fromDoc(cls, doc, baseuri, loadingOptions, docRoot=None):
            return doc

        def expand(url, base_url, loadingOptions, scoped_id=False, vocab_term=False, scoped_ref=None):
            return url

    return S


def copied(ex, st, args, kw):
    from pydv import models

    return models.FUNCS["copy.copy"](ex, st, args, kw)


CLASSES = {"any_": "Any", "enum": "Enum", "expression": "Expression", "array": "Array", "map_": "Map", "record": "Record", "union": "Union", "uri": "URI", "secondary": "SecondaryDSL", "idmap": "IdMap"}


def make(v, part):
    m, s = MODS[v], specs(v)
    p = f"cwl_utils.parser.cwl_{v}:"
    VE = (ValidationException,)
    lazy = {SourceLine: havoc, ValidationException: error, rt.convert_typing: htext, rt.extract_type: htext, str: htext}
    # copies are compared by content: nothing below the first level is changed
    kw = dict(merge=part not in ('resolve', 'typedsl'), extra={copy.deepcopy: copied}, virtual={"load": (rt.Loader, rt.Loader.load)}, lazy=lazy)
    ext = [Contract("load", "schema_salad.runtime:Loader.load", s.load, None, raises=VE, trusted=True),
           Contract("load_field", p + "_load_field", s.load_field, None, raises=VE, trusted=True),
           Contract("expand", p + "_expand_url", s.expand, None, raises=VE, ret="S", trusted=True),
           Contract("check_exists", "schema_salad.fetcher:Fetcher.check_exists", s.check_exists, None, ret="B", raises=VE, trusted=True)]
    if part in ("resolve", "typedsl"):
        T = next(x for x in vars(m).values() if isinstance(x, m._TypeDSLLoader))
        me = {"self": lambda ex, st, n: K(T)}
        return Rel([Contract("resolve", p + "_TypeDSLLoader.resolve", s.resolve, s.pre_resolve, raises=VE, args=me),
                    Contract("typedsl", p + "_TypeDSLLoader.load", s.typedsl, s.pre_typedsl, raises=VE, args=me)] + ext,
                   universe=(LoadingOptions,), **kw)
    cls = CLASSES[part]
    C = getattr(m, f"_{cls}Loader")
    U = (C, rt.Loader, LoadingOptions) + ((CommentedMap,) if part in ('idmap', 'array') else ()) + ((Fetcher,) if part == "uri" else ())
    return Rel([Contract(part, p + f"_{cls}Loader.load", getattr(s, part), getattr(s, "pre_" + part.rstrip("_")), raises=VE)] + ext,
               universe=U, pure=("schema_salad.runtime.LoadingOptions", f"cwl_utils.parser.cwl_{v}._UnionLoader"), **kw)


from schema_salad.fetcher import Fetcher  # noqa: E402

PARTS = list(CLASSES) + ["resolve", "typedsl"]
JOBS = [rel_job(lambda v=v, c=c: make(v, c), c, timeout=90, label=f"{v}.{c}") for v in VERSIONS for c in PARTS]


# ------------------------------------------------------------- bounded checks
class Rec(rt.Loader):
    def load(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
        return doc


class Only(rt.Loader):
    """accepts the values of one kind, tagged with its name"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def load(self, doc, baseuri, loadingOptions, docRoot=None, lc=None):
        if KINDS[self.kind](doc):
            return (self.name, doc)
        raise ValidationException("no")

    def __repr__(self):
        return self.name


KINDS = {"str": lambda d: isinstance(d, str), "dict": lambda d: isinstance(d, dict), "list": lambda d: isinstance(d, list), "int": lambda d: isinstance(d, int), "all": lambda d: True, "none": lambda d: False, "long": lambda d: isinstance(d, (str, list, dict)) and len(d) > 1}
BASE = "file:///d/x.cwl#tool/inp"


def cm(x):
    if isinstance(x, dict):
        m = CommentedMap()
        m.lc.filename = "file:///d/x.cwl"
        for k, v in x.items():
            m[k] = cm(v)
        return m
    return [cm(v) for v in x] if isinstance(x, list) else x


def gen_loader(rng, tier):
    kind = rng.choice(["typedsl", "secondary", "idmap", "array", "union", "map", "uri", "prim"])
    v = rng.choice(VERSIONS)
    atom = lambda: rng.choice(["a", "b", "", "x?", 3, None, {"k": 1}, {"id": "i"}, {"id": "j", "v": [1]}, ["n"], [], {}, True, 1.5, "yy"])
    T = lambda: rng.choice(["int", "File", "string", "null", "Any", "file:///d/x.cwl#T"]) + rng.choice(["", "", "?", "[]", "[]?", "[][]", "??", "?[]", "[]??"])
    if kind == "typedsl":
        d = rng.choice([T(), [rng.choice([T(), T(), {"type": "array", "items": "int"}, {"type": "enum", "symbols": ["a"]}]) for _ in range(rng.randrange(6))], {"type": "record"}, None])
        return kind, v, d, None
    if kind == "secondary":
        S = lambda: rng.choice([".bai", ".bai?", "^.x", "?", "", "a??", {"pattern": ".p"}, {"pattern": ".p", "required": rng.choice([True, False, "$(1)", None])}, {"pattern": "q?", "x": 1}, {"required": True}, 4, None, {}])
        return kind, v, rng.choice([S(), [S() for _ in range(rng.randrange(4))]]), None
    if kind == "idmap":
        d = {k: rng.choice([atom(), {"type": "int"}, {"type": "int", "doc": "d"}, {"id": "own"}, "File"]) for k in rng.sample(["a", "b", "c", "d", "z"], rng.randrange(5))} if rng.random() < .8 else rng.choice([atom(), [{"id": "q"}, {"id": "p"}]])
        return kind, v, cm(d) if rng.random() < .5 else d, rng.choice([("id", "type"), ("id", None), ("class", None), ("name", "type"), ("package", "specs"), ("id", "source")])
    if kind == "array":
        d = [atom() for _ in range(rng.randrange(6))] if rng.random() < .9 else atom()
        return kind, v, cm(d) if rng.random() < .5 else d, (rng.choice(["str", "dict", "all", "int"]), rng.choice([None, None, "@list"]))
    if kind == "union":
        return kind, v, rng.choice([atom(), atom(), cm({"class": "K"}), cm({"id": "u"})]), [rng.choice(list(KINDS)) for _ in range(rng.randrange(1, 6))]
    if kind == "map":
        return kind, v, rng.choice([{k: atom() for k in rng.sample("abcd", rng.randrange(4))}, {k: rng.choice("pq") for k in rng.sample("abcd", rng.randrange(4))}, atom()]), rng.choice(["str", "all", "int"])
    if kind == "uri":
        u = lambda: rng.choice(["file:///d/y.cwl", "#q", "z.cwl", "#tool/inp/k", "http://h/x", 3, {"a": 1}, "sub/z.cwl#m"])
        return kind, v, rng.choice([u(), [u() for _ in range(rng.randrange(4))], None]), None
    return kind, v, atom(), rng.choice(["str", "int", "bool", "NoneType", "float"])


def flat(x):
    return {k: flat(v) for k, v in x.items()} if isinstance(x, dict) else tuple(flat(v) for v in x) if isinstance(x, tuple) else [flat(v) for v in x] if isinstance(x, list) else x


def order(x):
    return [(k, order(v)) for k, v in x.items()] if isinstance(x, dict) else [order(v) for v in x] if isinstance(x, (list, tuple)) else x


def expand_type(t):
    """None: not a shorthand of this one level"""
    if t.endswith("?"):
        e = expand_type1(t[:-1])
        return None if t[:-1].endswith("[][]") else ["null", e]
    return expand_type1(t)


def expand_type1(t):
    if t.endswith("[]"):
        return t if t.endswith("[][]") else {"type": "array", "items": t[:-2]}
    return t


def wanted(c):
    kind, v, d, p = c
    VE = ValidationException
    if kind == "typedsl":
        if isinstance(d, list):
            out = []
            for x in d:
                if not isinstance(x, str):
                    out.append(x)
                    continue
                e = expand_type(x)
                for y in e if isinstance(e, list) else [e]:
                    if y not in out:
                        out.append(y)
            return out
        return expand_type(d) if isinstance(d, str) else d
    if kind == "secondary":
        def one(x):
            if isinstance(x, str):
                return {"pattern": x[:-1], "required": False} if x[-1:] == "?" else {"pattern": x}
            if isinstance(x, dict):
                if "pattern" not in x or set(x) - {"pattern", "required"}:
                    raise VE("")
                return {"pattern": x["pattern"], "required": x.get("required")}
            raise VE("")
        return [one(x) for x in d] if isinstance(d, list) else [one(d)]
    if kind == "idmap":
        if not isinstance(d, dict):
            return d
        out = []
        for k, x in d.items():
            if not isinstance(x, dict):
                if p[1] is None:
                    raise VE("")
                x = {p[1]: x}
            out.append({**x, p[0]: k})
        return out
    if kind == "array":
        k, cont = p
        if not isinstance(d, list):
            raise VE("")
        out = []
        for x in d:
            if isinstance(x, list):
                y = wanted(("array", v, x, p)) if not (k == "all" and False) else x
                out.extend(y) if cont != "@list" else out.append(y)
            elif KINDS[k](x):
                out.append(("it", x))
            else:
                raise VE("")
        ids = [x.get("id") for x in d if isinstance(x, CommentedMap) and x.get("id") is not None]
        if len(ids) != len(set(ids)):
            raise VE("")
        return out
    if kind == "union":
        for i, k in enumerate(p):
            if KINDS[k](d):
                return (f"{k}{i}", d)
        raise VE("")
    if kind == "map":
        if not isinstance(d, dict) or not all(KINDS[p](x) for x in d.values()):
            raise VE("")
        return {k: ("it", x) for k, x in d.items()}
    if kind == "uri":
        import urllib.parse

        return [urllib.parse.urljoin(BASE, x) if isinstance(x, str) else x for x in d] if isinstance(d, list) else urllib.parse.urljoin(BASE, d) if isinstance(d, str) else d
    T = {"str": (str,), "int": (int,), "bool": (bool,), "NoneType": (type(None),), "float": (float,)}[p]
    if isinstance(d, T):
        return d
    raise VE("")


def run_loader(c):
    kind, v, d, p = c
    if kind == "typedsl":
        # doubled suffixes are no shorthands and end as unknown names
        if any(isinstance(x, str) and any(s in x for s in ("[][]", "??", "?[]")) for x in (d if isinstance(d, list) else [d])):
            return None
    m = MODS[v]
    lo = LoadingOptions(fileuri="file:///d/x.cwl", baseuri="file:///d/", no_link_check=True, container=p[1] if kind == "array" else None)
    L = {"typedsl": lambda: m._TypeDSLLoader(Rec(), 2, "v1.1"), "secondary": lambda: m._SecondaryDSLLoader(Rec()), "idmap": lambda: m._IdMapLoader(Rec(), *p), "array": lambda: m._ArrayLoader(Only(p[0], "it")),
         "union": lambda: m._UnionLoader([Only(k, f"{k}{i}") for i, k in enumerate(p)]), "map": lambda: m._MapLoader(Only(p, "it")), "uri": lambda: m._URILoader(Rec(), False, False, None, None),
         "prim": lambda: m._PrimitiveLoader({"str": str, "int": int, "bool": bool, "NoneType": type(None), "float": float}[p])}[kind]()
    before = copy.deepcopy(d)

    def norm(f):
        try:
            return ("ok", json.dumps([order(flat(f())), repr(type(None))], default=repr))
        except ValidationException:
            return ("raise",)
    if kind == "secondary":  # what stands in a pattern map is ordered freely
        got, want = norm(lambda: unord(L.load(d, BASE, lo))), norm(lambda: unord(wanted(c)))
    elif kind == "idmap":
        got, want = norm(lambda: unord(L.load(d, BASE, lo))), norm(lambda: unord(wanted((kind, v, before, p))))
    else:
        got, want = norm(lambda: L.load(d, BASE, lo)), norm(lambda: wanted(c))
    if got != want:
        return f"{kind} of {v}: {before!r} with {p!r} gives {got}, expected {want}"
    if order(flat(d)) != order(flat(before)):
        return f"{kind} of {v} changes the given document {before!r} to {d!r}"
    return None


def unord(x):
    return [{k: y[k] for k in sorted(y, key=str)} if isinstance(y, dict) else y for y in x] if isinstance(x, list) else x


# a document and its long form
def long_type(t):
    if isinstance(t, str):
        return expand_type(t)
    if isinstance(t, list):
        out = []
        for x in t:
            e = long_type(x)
            for y in e if isinstance(e, list) else [e]:
                if y not in out:
                    out.append(y)
        return out
    if isinstance(t, dict):
        return {k: ([dict(f, type=long_type(f["type"])) for f in listed(x, "name", "type")] if k == "fields" else x if k != "items" or isinstance(x, str) else long_items(x)) for k, x in t.items()}
    return t


def long_items(x):
    return [y if isinstance(y, str) else long_type(y) for y in x] if isinstance(x, list) else long_type(x)


def listed(o, key, val):
    if isinstance(o, list):
        return [copy.deepcopy(x) for x in o]
    return [dict(copy.deepcopy(x) if isinstance(x, dict) else {val: copy.deepcopy(x)}, **{key: k}) for k, x in o.items()]


def long_form(d):
    d = copy.deepcopy(d)
    for k in ("inputs", "outputs"):
        d[k] = [dict(x, type=long_type(x["type"])) for x in listed([x if isinstance(x, dict) else x for x in d[k]] if isinstance(d[k], list) else {n: x for n, x in d[k].items()}, "id", "type")]
        for x in d[k]:
            if "secondaryFiles" in x and d.get("cwlVersion", "v1.0") != "v1.0":
                s = x["secondaryFiles"]
                x["secondaryFiles"] = [dict({"required": None}, **y) if isinstance(y, dict) else {"pattern": y[:-1], "required": False} if y.endswith("?") else {"pattern": y} for y in (s if isinstance(s, list) else [s])]
    for k in ("requirements", "hints"):
        if k in d:
            d[k] = listed(d[k], "class", None)
    if "steps" in d:
        d["steps"] = listed(d["steps"], "id", None)
        for s in d["steps"]:
            s["in"] = listed(s["in"], "id", "source")
            s["run"] = long_form(dict(s["run"], cwlVersion=d["cwlVersion"]))
            del s["run"]["cwlVersion"]
    return d


def gen_doc(rng, tier):
    v = rng.choice(docs.VERSIONS)
    d = docs.process(rng, v, "#main", depth=rng.choice([0, 1, 1]))
    d["cwlVersion"] = v
    if isinstance(d["inputs"], (dict, list)) and rng.random() < .4:
        for x in d["inputs"].values() if isinstance(d["inputs"], dict) else d["inputs"]:
            if isinstance(x, dict) and d["class"] == "CommandLineTool" and v != "v1.0" and x.get("type") in ("File", "File[]", "File?"):
                x["secondaryFiles"] = rng.choice([".bai", ".bai?", [".a?", ".b"], {"pattern": ".c", "required": True}, [{"pattern": ".d"}, ".e?"]])
    return d


def run_doc(d):
    m = MODS[d["cwlVersion"].replace(".", "_")]

    def f(x):
        p = m.load_document_by_yaml(cm(x) if len(json.dumps(x)) % 2 else x, docs.URI, None)
        return gen.norm(rt.save(p, relative_uris=False)) if hasattr(gen, "norm") else rt.save(p, relative_uris=False)
    given = copy.deepcopy(d)
    try:
        a = ("ok", f(d))
    except ValidationException as e:
        a = ("raise", str(e)[:300])
    try:
        b = ("ok", f(long_form(given)))
    except ValidationException as e:
        b = ("raise", str(e)[:300])
    if a[0] != b[0]:
        return f"shorthand {a[0]} ({a[1] if a[0] == 'raise' else ''}), long form {b[0]} ({b[1] if b[0] == 'raise' else ''})"
    if a[0] == "ok":
        x, y = json.dumps(a[1], sort_keys=True, default=str), json.dumps(b[1], sort_keys=True, default=str)
        if x != y:
            return f"shorthand loads to {x[:600]}, long form to {y[:600]}"
    return None


GENS = {"loader": (gen_loader, run_loader), "doc": (gen_doc, run_doc)}
COUNTS = {"loader": 20000, "doc": 700}
BUDGET, BUDGET_THOROUGH = 15, 150
