"""P16: requirement extraction."""
import contextlib
import copy
import importlib
import io
import json
import os

from schema_salad.exceptions import ValidationException

import cwl_utils.parser as cwl
from cwl_utils import cite_extract, docker_extract
from pydv.rel import Contract, Rel

from . import docs, gen
from .driver import rel_job

ID = "P16"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); traversal of whole documents bounded"
NOTE = ("extract_docker_reqs, extract_docker_requirements, extract_software_reqs, get_process_from_step, traverse_workflow and traverse of docker_extract and cite_extract are proved equal to their "
        "specification for every process: which requirements are yielded, in which order, and the image name they end with; each recursive call goes through its contract (callees recorded in order with their "
        "arguments, results arbitrary lists). Generators are verified as the list of what they yield. Document loading is assumed. Bounded: the whole traversal of random nested documents, inline and in files, and run().")
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}") for v in VERSIONS}
VE = (ValidationException,)


def docker_reqs(process):
    out = []
    for r in process.requirements or []:
        if isinstance(r, cwl.DockerRequirementTypes):
            out.append(r)
    for r in process.hints or []:
        if isinstance(r, cwl.DockerRequirementTypes):
            out.append(r)
    return out


def docker_requirements(process):
    """named without tag or digest: the tag latest"""
    out = []
    for r in docker_extract.extract_docker_reqs(process):
        if isinstance(r.dockerPull, str) and ":" not in r.dockerPull.rpartition("/")[2]:
            r.dockerPull = r.dockerPull + ":latest"
        out.append(r)
    return out


def software_reqs(process):
    out = []
    for r in process.requirements or []:
        if isinstance(r, cwl.SoftwareRequirementTypes):
            out.append(r)
    for r in process.hints or []:
        if isinstance(r, cwl.SoftwareRequirementTypes):
            out.append(r)
    return out


def from_step(step):
    if isinstance(step.run, str):
        return cwl.load_document_by_uri(step.run)
    return step.run


def traversal(mod, extract):
    def traverse(process):
        out = []
        out.extend(extract(process))
        if isinstance(process, cwl.WorkflowTypes):
            out.extend(mod.traverse_workflow(process))
        return out

    def traverse_workflow(workflow):
        out = []
        for s in workflow.steps:
            out.extend(extract(s))
            out.extend(mod.traverse(mod.get_process_from_step(s)))
        return out
    return traverse, traverse_workflow


STEPS = tuple(m.WorkflowStep for m in MODS.values())
TOOLS = tuple(m.CommandLineTool for m in MODS.values())
HOLDERS = STEPS + TOOLS + cwl.WorkflowTypes
UNIVERSE = STEPS + TOOLS + cwl.WorkflowTypes + cwl.DockerRequirementTypes + cwl.SoftwareRequirementTypes


def pre_process(process):
    return isinstance(process, HOLDERS) and (process.requirements is None or isinstance(process.requirements, list)) and (process.hints is None or isinstance(process.hints, list))


def pre_step(step):
    return isinstance(step, STEPS)


def pre_workflow(workflow):
    return isinstance(workflow, cwl.WorkflowTypes) and isinstance(workflow.steps, list) and all(isinstance(s, STEPS) for s in workflow.steps)


def is_docker(r):
    return isinstance(r, cwl.DockerRequirementTypes)


def make(modname, part):
    mod = {"docker_extract": docker_extract, "cite_extract": cite_extract}[modname]
    p = f"cwl_utils.{modname}:"
    docker = modname == "docker_extract"
    extract = mod.extract_docker_requirements if docker else mod.extract_software_reqs
    tr, tw = traversal(mod, extract)
    C = {"reqs": lambda: Contract("reqs", p + ("extract_docker_reqs" if docker else "extract_software_reqs"), docker_reqs if docker else software_reqs, pre_process),
         "requirements": lambda: Contract("requirements", p + "extract_docker_requirements", docker_requirements, pre_process),
         "step": lambda: Contract("step", p + "get_process_from_step", from_step, pre_step, raises=VE),
         "traverse": lambda: Contract("traverse", p + "traverse", tr, pre_process, raises=VE),
         "workflow": lambda: Contract("workflow", p + "traverse_workflow", tw, pre_workflow, raises=VE)}
    eff = {cwl.load_document_by_uri: ("load_document_by_uri", "V", VE)}
    if part in ("traverse", "workflow"):
        eff = {extract: ("extract", "L", ()), mod.get_process_from_step: ("get_process_from_step", "V", VE)}
        if part == "traverse":
            eff[mod.traverse_workflow] = ("traverse_workflow", "L", VE)
        else:
            eff[mod.traverse] = ("traverse", "L", VE)
    cs = [C[part]()]
    if part == "requirements":
        eff[mod.extract_docker_reqs] = ("reqs", "L", ())
    return Rel(cs, universe=UNIVERSE, effects=eff, timeout=10000)


JOBS = [rel_job(lambda p=p: make("docker_extract", p), p, label=f"docker.{p}") for p in ("reqs", "requirements", "step", "traverse", "workflow")] + \
       [rel_job(lambda p=p: make("cite_extract", p), p, label=f"cite.{p}") for p in ("reqs", "step", "traverse", "workflow")]
GENS = {}


# ------------------------------------------------------------- bounded checks
IMAGES = ["debian", "debian:12", "quay.io/a/b", "quay.io/a/b:1.0", "alpine@sha256:ab12", "localhost:5000/x/y", "localhost:5000/x/y:z", "a/b/c", "host:80/img@sha256:00", "ubuntu:latest"]


def some_reqs(rng, p):
    # hints of a step stay plain maps when loaded: see the finding "step-hints"
    for k in ("requirements", "hints") if "run" not in p else ("requirements",):
        rs = [r for r in docs_list(p.get(k, []), "class") if r["class"] not in ("DockerRequirement", "SoftwareRequirement")]
        for c in rng.sample(["DockerRequirement", "SoftwareRequirement", "DockerRequirement"], rng.randrange(4)):
            if c == "DockerRequirement":
                r = {"class": c, "dockerPull": rng.choice(IMAGES)} if rng.random() < .85 else {"class": c, "dockerImageId": "img", "dockerFile": "FROM x"}
            else:
                r = {"class": c, "packages": [{"package": f"pk{rng.randrange(100)}", "version": ["1"]}]}
            rs.insert(rng.randrange(len(rs) + 1), r)
        p.pop(k, None)
        if rs or rng.random() < .2:
            classes = [r["class"] for r in rs]
            p[k] = rs if len(set(classes)) < len(classes) or rng.random() < .6 else {r["class"]: {a: b for a, b in r.items() if a != "class"} for r in rs}
    return p


def docs_list(x, key):
    return copy.deepcopy(x) if isinstance(x, list) else [dict(v, **{key: k}) for k, v in x.items()]


def tree(rng, v, depth, files):
    r = rng.random()
    if depth == 0 or r < .25:
        p = docs.tool(rng, v, None, ins=["a"], outs=["o"])
    elif r < .35:
        p = docs.etool(rng, v, None, ins=["a"], outs=["o"])
    else:
        p = {"class": "Workflow", "inputs": {"a": "int"}, "outputs": {}, "requirements": [{"class": "SubworkflowFeatureRequirement"}]}
        steps = []
        for i in rng.sample(range(9), rng.choice([1, 1, 2, 3])):
            if files and rng.random() < .2:
                run = rng.choice(list(files))
            else:
                run = tree(rng, v, depth - 1, files)
                if rng.random() < .4:
                    n = f"f{len(files)}.cwl"
                    run["cwlVersion"] = v
                    files[n] = run
                    run = n
                else:
                    run.pop("cwlVersion", None)
            steps.append(some_reqs(rng, {"id": f"s{i}", "in": [], "out": [], "run": run}))
        p["steps"] = steps if rng.random() < .5 else {s["id"]: {k: x for k, x in s.items() if k != "id"} for s in steps}
    p["cwlVersion"] = v
    return some_reqs(rng, p)


def gen_tree(rng, tier):
    files = {}
    v = rng.choice(docs.VERSIONS)
    return tree(rng, v, rng.choice([0, 1, 1, 2, 2, 3]), files), files


def want_reqs(p, files, kind):
    out = []
    for k in ("requirements", "hints"):
        out += [r for r in docs_list(p.get(k, []), "class") if r["class"] == kind]
    if p.get("class") == "Workflow":
        for s in docs_list(p["steps"], "id"):
            out += want_reqs({k: x for k, x in s.items() if k in ("requirements", "hints")}, files, kind)
            run = s["run"]
            out += want_reqs(files[run] if isinstance(run, str) else run, files, kind)
    return out


def tagged(i):
    last = i.split("/")[-1]
    return i if ":" in last else i + ":latest"


def write(c, d):
    main, files = c
    for n, x in list(files.items()) + [("main.cwl", main)]:
        with open(os.path.join(d, n), "w") as f:
            json.dump(x, f)
    return os.path.join(d, "main.cwl")


def run_tree(c):
    import tempfile

    main, files = c
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as d:
        path = write(c, d)
        w = [r.get("dockerPull") for r in want_reqs(main, files, "DockerRequirement")]
        w = [x if x is None else tagged(x) for x in w]
        got = [r.dockerPull for r in docker_extract.traverse(cwl.load_document_by_uri(path))]
        if got != w:
            return f"docker requirements {got}, expected {w}"
        lazily = [r.dockerPull for r in list(docker_extract.traverse(cwl.load_document_by_uri(path)))]
        if lazily != w:
            return f"docker requirements {lazily} in the end, expected {w}"
        w = [r["packages"][0]["package"] for r in want_reqs(main, files, "SoftwareRequirement")]
        got = [r.packages[0].package for r in cite_extract.traverse(cwl.load_document_by_uri(path))]
        if got != w:
            return f"software requirements {got}, expected {w}"
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            cite_extract.run(cite_extract.arg_parser().parse_args([path]))
        if [x.split(",")[0] for x in out.getvalue().splitlines()] != [f"Package: {x}" for x in w]:
            return f"cite prints {out.getvalue()!r} for {w}"
    return None


class Engine:
    """stands for the container engines: records the commands, runs nothing"""

    def __init__(self, version="singularity version 3.8.0"):
        self.calls, self.version = [], version

    def run(self, cmd, *a, **kw):
        import subprocess

        if list(cmd)[1:] == ["--version"]:
            return subprocess.CompletedProcess(cmd, 0, self.version if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") else self.version.encode(), b"")
        self.calls.append(list(cmd))
        return subprocess.CompletedProcess(cmd, 0, b"", b"")

    def check_output(self, cmd, *a, **kw):
        return self.run(cmd, *a, **kw).stdout


@contextlib.contextmanager
def engine(e):
    import subprocess

    from cwl_utils import singularity

    keep = subprocess.run, subprocess.check_output, subprocess.check_call, subprocess.call, subprocess.Popen, os.system
    subprocess.run, subprocess.check_output = e.run, e.check_output
    subprocess.check_call = lambda c, *a, **k: e.run(c).returncode
    subprocess.call = subprocess.check_call
    singularity._SINGULARITY_VERSION, singularity._SINGULARITY_FLAVOR = None, ""
    try:
        yield e
    finally:
        subprocess.run, subprocess.check_output, subprocess.check_call, subprocess.call, subprocess.Popen, os.system = keep
        singularity._SINGULARITY_VERSION, singularity._SINGULARITY_FLAVOR = None, ""


def gen_pull(rng, tier):
    return gen_tree(rng, tier), rng.random() < .5, rng.random() < .5, rng.random() < .3, rng.choice([None, "podman", "apptainer"])


def run_pull(c):
    import tempfile

    (main, files), sing, to_dir, force, cmd = c
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as d:
        path = write((main, files), d)
        out = os.path.join(d, "images", "x")
        args = [path] + (["-s"] if sing else []) + (["--dir", out] if to_dir else []) + (["--force-download"] if force else []) + (["--container-engine", cmd] if cmd else [])
        with engine(Engine()) as e:
            try:
                r = docker_extract.run(docker_extract.arg_parser().parse_args(args))
            except SystemExit as x:
                return None if sing and not to_dir and x.code and not e.calls else f"ends with {x.code} after {e.calls}"
        if sing and not to_dir:
            return "singularity without a directory is accepted"
        w = [x.get("dockerPull") for x in want_reqs(main, files, "DockerRequirement")]
        w = [x if x is None else tagged(x) for x in w]
        if [x.dockerPull for x in r] != w:
            return f"run returns {[x.dockerPull for x in r]}, expected {w}"
        cmds = []
        for x in w:
            if x is None:
                continue
            if sing:
                f = os.path.join(out, x.replace("/", "_").replace(":", "_") + ".sif")
                cmds.append([cmd or "singularity", "pull"] + (["--force"] if force else []) + ["--name", f, "docker://" + x])
            else:
                cmds.append([cmd or "docker", "pull", x])
                if to_dir:
                    cmds.append([cmd or "docker", "save", "-o", os.path.join(out, (x.replace("/", "") + ".tar").replace(":", "_")), x])
        if e.calls != cmds:
            return f"commands {e.calls}, expected {cmds}"
    return None


GENS = {"tree": (gen_tree, run_tree), "pull": (gen_pull, run_pull)}
COUNTS = {"tree": 400, "pull": 300}
BUDGET, BUDGET_THOROUGH = 15, 150


def probe_step_hints():
    m = {"class": "Workflow", "cwlVersion": "v1.2", "inputs": {}, "outputs": {}, "steps": [{"id": "s", "in": [], "out": [], "hints": [{"class": "DockerRequirement", "dockerPull": "debian"}],
         "run": {"class": "CommandLineTool", "baseCommand": "true", "inputs": {}, "outputs": {}}}]}
    return run_tree((m, {})) is not None


FINDINGS = {"step-hints": probe_step_hints}
