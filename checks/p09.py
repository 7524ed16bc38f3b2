"""P09: file format compatibility."""
import itertools

from rdflib import OWL, RDFS, Graph, URIRef
from schema_salad.exceptions import ValidationException
from schema_salad.utils import aslist

from cwl_utils import file_formats
from pydv.rel import Contract, Rel

from . import gen
from .driver import rel_job

ID = "P09"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); graph reachability bounded"
NOTE = ("formatSubclassOf and check_format are proved equal to their specification (a depth-first search over both link kinds, every file against every format), "
        "with Graph.triples, URIRef and json_dumps as pure functions. That the search is graph reachability and terminates on cycles is bounded: "
        "compared with an independent fixpoint on random ontologies of up to 7 classes.")
M = "cwl_utils.file_formats:"


def spec_sub(fmt, cls, ontology, visited):
    if URIRef(fmt) == URIRef(cls):
        return True
    if ontology is None or fmt in visited:
        return False
    visited.add(fmt)
    for t in ontology.triples((URIRef(fmt), RDFS.subClassOf, None)):
        if spec_sub(t[2], cls, ontology, visited):
            return True
    for t in ontology.triples((URIRef(fmt), OWL.equivalentClass, None)):
        if spec_sub(t[2], cls, ontology, visited):
            return True
    for t in ontology.triples((None, OWL.equivalentClass, URIRef(fmt))):
        if spec_sub(t[0], cls, ontology, visited):
            return True
    return False


def accepted(f, inpf, ontology):
    return f["format"] == inpf or spec_sub(f["format"], inpf, ontology, set())


def spec_check(actual_file, input_formats, ontology):
    for f in aslist(actual_file):
        if f:
            if "format" not in f:
                raise ValidationException("no format")
            ok = False
            for i in aslist(input_formats):
                if accepted(f, i, ontology):
                    ok = True
                    break
            if not ok:
                raise ValidationException("incompatible")


def pre_sub(fmt, cls, ontology, visited):
    return isinstance(fmt, str) and isinstance(cls, str) and (ontology is None or isinstance(ontology, Graph)) and isinstance(visited, set)


def is_file(f):
    return f is None or (isinstance(f, dict) and ("format" not in f or isinstance(f["format"], str)))


def pre_check(actual_file, input_formats, ontology):
    return ((is_file(actual_file) or (isinstance(actual_file, list) and all(is_file(f) for f in actual_file)))
            and (isinstance(input_formats, str) or (isinstance(input_formats, list) and all(isinstance(f, str) for f in input_formats)))
            and (ontology is None or isinstance(ontology, Graph)))


def make():
    return Rel([
        Contract("subclass", M + "formatSubclassOf", spec_sub, pre_sub, ret="B", modifies=(("visited", "dct"),)),
        Contract("check", M + "check_format", spec_check, pre_check, ret="N", raises=(ValidationException,)),
    ], universe=(Graph,), predicates=(is_file,), pure=("rdflib.term.URIRef=S", "rdflib.graph.Graph.triples=[SSS]", "schema_salad.utils.json_dumps=S"))


JOBS = [rel_job(make, "subclass"), rel_job(make, "check")]

# ------------------------------------------------------------- bounded checks
NODES = [f"http://ex.org/fmt#{i}" for i in range(7)]


def gen_graph(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7])
    edges = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 14])):
        edges.append((rng.randrange(n), rng.random() < .55, rng.randrange(n)))
    pick = lambda: rng.randrange(n) if rng.random() < .95 else 6
    files = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        files.append(rng.choice([None, {}, {"class": "File"}]) if rng.random() < .15 else {"class": "File", "format": NODES[pick()]})
    fmts = [NODES[pick()] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return edges, files, fmts, rng.random() < .1, rng.random() < .4


def reach(edges, a, b):
    adj = {}
    for s, sub, o in edges:
        adj.setdefault(NODES[s], set()).add(NODES[o])
        if not sub:
            adj.setdefault(NODES[o], set()).add(NODES[s])
    seen, todo = {a}, [a]
    while todo:
        for x in adj.get(todo.pop(), ()):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return b in seen


def run_graph(c):
    edges, files, fmts, nog, single = c
    g = None
    if not nog:
        g = Graph()
        for s, sub, o in edges:
            g.add((URIRef(NODES[s]), RDFS.subClassOf if sub else OWL.equivalentClass, URIRef(NODES[o])))
    else:
        edges = []
    for f in files:
        if f and "format" in f:
            for b in fmts:
                got, want = file_formats.formatSubclassOf(f["format"], b, g, set()), reach(edges, f["format"], b)
                if got is not want:
                    return f"formatSubclassOf({f['format']}, {b}) is {got}, reachable: {want}"
    want = all(not f or ("format" in f and any(reach(edges, f["format"], b) for b in fmts)) for f in files)
    a = files[0] if single and len(files) == 1 else files
    b = fmts[0] if single and len(fmts) == 1 else fmts
    try:
        file_formats.check_format(a, b, g)
        got = True
    except ValidationException:
        got = False
    if got is not want:
        return f"check_format accepts: {got}, expected {want}"
    return None


GENS = {"graph": (gen_graph, run_graph)}
COUNTS = {"graph": 20000}
BUDGET, BUDGET_THOROUGH = 10, 120
