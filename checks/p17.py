"""P17: the commands of the container engines."""
import contextlib
import os
import pathlib
import subprocess
import sys
import tempfile

import ruamel.yaml
from cwl_utils import docker_extract, singularity
from cwl_utils import parser as cwl
from cwl_utils.image_puller import DockerImagePuller, ImagePuller, SingularityImagePuller
from pydv.rel import Contract, Rel
from schema_salad.exceptions import ValidationException

from . import gen  # noqa: F401
from .driver import rel_job
from .p16 import IMAGES, Engine, engine, gen_pull, run_pull

ID = "P17"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("get_image_name, generate_udocker_loading_command, save_docker_image of both pullers, _run_command_pull and docker_extract.run are proved equal to their specification for every image name, directory, engine and "
        "force flag: the file names and the exact sequence of engine commands and file operations, including failing ones, and one pull per requirement of the document in order. Document loading and traversal (P16), subprocess.run and the file operations of Path are assumed or recorded external calls with arbitrary "
        "results; str() of a Path and the version predicates (P18) are assumed functions. Bounded: the real calls with recorded commands in scratch directories.")
M = "cwl_utils.image_puller:"
CPE = subprocess.CalledProcessError


def run_pull_spec(cmd_pull):
    """a failing command surfaces as an error, with its output when there is some"""
    try:
        subprocess.run(cmd_pull, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except CPE as e:
        if e.output:
            raise subprocess.SubprocessError(e.output)
        raise


def docker_name(self):
    return (self.req.replace("/", "") + ".tar").replace(":", "_")


def docker_load(self):
    return f"udocker load -i {docker_name(self)}"


def docker_save(self):
    ImagePuller._run_command_pull([self.cmd, "pull", self.req])
    if self.save_directory:
        f = pathlib.Path(self.save_directory, self.get_image_name())
        if self.force_pull:
            f.unlink(missing_ok=True)
        subprocess.run([self.cmd, "save", "-o", str(f), self.req], check=True)
        print(self.generate_udocker_loading_command())


def singularity_name(self):
    n = self.req.replace("/", "_").replace(":", "_")
    if singularity.is_version_2_6():
        return f"{n}.img"
    if singularity.is_version_3_or_newer():
        return f"{n}.sif"
    raise Exception("unknown version")


def singularity_save(self):
    f = pathlib.Path(self.save_directory, self.get_image_name())
    if f.exists() and not self.force_pull:
        return
    if self.force_pull:
        ImagePuller._run_command_pull([self.cmd, "pull", "--force", "--name", str(f), f"docker://{self.req}"])
    else:
        ImagePuller._run_command_pull([self.cmd, "pull", "--name", str(f), f"docker://{self.req}"])
    return


def pre_cmd(cmd_pull):
    return isinstance(cmd_pull, list)


def text(self):
    return isinstance(self.req, str) and isinstance(self.cmd, str) and isinstance(self.force_pull, bool) and (self.save_directory is None or isinstance(self.save_directory, str))


def pre_docker(self):
    return isinstance(self, DockerImagePuller) and text(self)


def pre_singularity(self):
    return isinstance(self, SingularityImagePuller) and text(self)


def pre_singularity_save(self):
    return isinstance(self, SingularityImagePuller) and text(self) and isinstance(self.save_directory, str) and self.save_directory != ""


def run_spec(args):
    """pull every requirement of the document, in order, with the chosen engine"""
    if args.singularity and not args.dir:
        sys.exit(1)
    if args.dir:
        pathlib.Path(args.dir).mkdir(parents=True, exist_ok=True)
    reqs = []
    for r in docker_extract.traverse(cwl.load_document_by_uri(args.input)):
        reqs.append(r)
        if r.dockerPull:
            if args.singularity:
                SingularityImagePuller(r.dockerPull, args.dir, "singularity" if args.container_engine is None else args.container_engine, args.force_download).save_docker_image()
            else:
                DockerImagePuller(r.dockerPull, args.dir, "docker" if args.container_engine is None else args.container_engine, args.force_download).save_docker_image()
        else:
            ruamel.yaml.YAML().dump(r.save(), sys.stderr)
    return reqs


class Options:
    """the namespace arg_parser() makes"""
    def __init__(self, input, dir, singularity, container_engine, force_download):
        self.input, self.dir, self.singularity, self.container_engine, self.force_download = input, dir, singularity, container_engine, force_download


def pre_run(args):
    return (isinstance(args, Options) and isinstance(args.input, str) and isinstance(args.singularity, bool) and isinstance(args.force_download, bool)
            and (args.dir is None or isinstance(args.dir, str)) and (args.container_engine is None or isinstance(args.container_engine, str)))


def are_reqs(process, res):
    return all_docker(res)


def all_docker(rs):
    return isinstance(rs, list) and all(isinstance(r, cwl.DockerRequirementTypes) for r in rs)


def make_run():
    eff = {pathlib.Path.mkdir: ("Path.mkdir", "N", (OSError,)), cwl.load_document_by_uri: ("load_document_by_uri", "V", (ValidationException,)),
           DockerImagePuller.save_docker_image: ("docker save", "N", (CPE,)), SingularityImagePuller.save_docker_image: ("singularity save", "N", (CPE,)),
           sys.exit: ("sys.exit", "N", (SystemExit,)), ruamel.yaml.YAML.dump: ("YAML.dump", "N", ())}
    for r in cwl.DockerRequirementTypes:
        eff[r.save] = ("DockerRequirement.save", "V", ())
    return Rel([Contract("traverse", "cwl_utils.docker_extract:traverse", lambda process: [], None, post=are_reqs, raises=(ValidationException,), trusted=True),
                Contract("main", "cwl_utils.docker_extract:run", run_spec, pre_run)], universe=(DockerImagePuller, SingularityImagePuller, pathlib.Path, Options) + cwl.DockerRequirementTypes, effects=eff, predicates=(all_docker,), pure=("pathlib.Path", "ruamel.yaml.main.YAML"))


def make(part):
    eff = {subprocess.run: ("subprocess.run", "V", (CPE,)),
           pathlib.Path.exists: ("Path.exists", "B", ()), pathlib.Path.unlink: ("Path.unlink", "N", (OSError,)), print: ("print", "N", ())}
    if part.endswith("save"):
        eff[ImagePuller._run_command_pull] = ("_run_command_pull", "N", (subprocess.SubprocessError,))
        eff[DockerImagePuller.get_image_name] = ("docker name", "S", ())
        eff[SingularityImagePuller.get_image_name] = ("singularity name", "S", ())
        eff[DockerImagePuller.generate_udocker_loading_command] = ("udocker", "S", ())
    C = {"run": lambda: Contract("run", M + "ImagePuller._run_command_pull", run_pull_spec, pre_cmd, ret="N"),
         "docker.name": lambda: Contract("docker.name", M + "DockerImagePuller.get_image_name", docker_name, pre_docker),
         "docker.load": lambda: Contract("docker.load", M + "DockerImagePuller.generate_udocker_loading_command", docker_load, pre_docker),
         "docker.save": lambda: Contract("docker.save", M + "DockerImagePuller.save_docker_image", docker_save, pre_docker),
         "singularity.name": lambda: Contract("singularity.name", M + "SingularityImagePuller.get_image_name", singularity_name, pre_singularity),
         "singularity.save": lambda: Contract("singularity.save", M + "SingularityImagePuller.save_docker_image", singularity_save, pre_singularity_save)}
    return Rel([C[part]()], universe=(DockerImagePuller, SingularityImagePuller, pathlib.Path), effects=eff, pure=("pathlib.Path", "cwl_utils.singularity.is_version_2_6=B", "cwl_utils.singularity.is_version_3_or_newer=B", "cwl_utils.singularity.get_version"))


JOBS = [rel_job(lambda p=p: make(p), p) for p in ("run", "docker.name", "docker.load", "docker.save", "singularity.name", "singularity.save")] + [rel_job(make_run, "main")]

# ------------------------------------------------------------- bounded checks
class Failing(Engine):
    """the k-th command fails, with or without output; pulls and saves write their file"""

    def __init__(self, version, fail, output):
        super().__init__(version)
        self.fail, self.output, self.events = fail, output, []

    def run(self, cmd, *a, **kw):
        if list(cmd)[1:] == ["--version"]:
            return super().run(cmd, *a, **kw)
        super().run(cmd, *a, **kw)
        target = cmd[cmd.index("-o") + 1] if "-o" in cmd else cmd[cmd.index("--name") + 1] if "--name" in cmd else None
        self.events.append(target is not None and os.path.exists(target))
        if len(self.calls) - 1 == self.fail:
            if kw.get("check"):
                raise CPE(3, cmd, output=self.output)
            return subprocess.CompletedProcess(cmd, 3, self.output, b"")
        if target is not None:
            with open(target, "w") as f:
                f.write("new")
        return subprocess.CompletedProcess(cmd, 0, b"", b"")


SING = {"singularity version 2.6.1": ".img", "singularity version 3.0.0": ".sif", "singularity-ce version 4.1.0": ".sif", "apptainer version 1.2.0": ".sif", "singularity version 2.5.0": None, "singularity-ce version 2.6.0": ".img",
        "singularity version 3.10.2": ".sif", "singularity version 2.10.0": None}


def gen_case(rng, tier):
    return (rng.choice(["docker", "singularity"]), rng.choice(IMAGES + ["a/b_c:d_e", "x:1/y:2", "A/b.c-d:e"]), rng.choice([None, "", "dir", "dir", "sub/dir"]), rng.choice(["docker", "podman", "/opt/x y/eng"]), rng.random() < .5,
            rng.choice(list(SING)), rng.choice([None, None, None, 0, 1]), rng.choice([None, b"", b"message"]), rng.random() < .5, rng.random() < .5)


def run_case(c):
    kind, image, sub, cmd, force, version, fail, output, old, as_path = c
    if kind == "singularity" and not sub:
        sub = "dir"
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_TMP")) as tmp:
        d = None if sub is None else "" if sub == "" else os.path.join(tmp, sub)
        if d:
            os.makedirs(d)
        suffix = SING[version]
        name = (image.replace("/", "") + ".tar").replace(":", "_") if kind == "docker" else None if suffix is None else image.replace("/", "_").replace(":", "_") + suffix
        target = os.path.join(d, name) if d and name else None
        other = os.path.join(d, "other") if d else None
        if other:
            with open(other, "w") as f:
                f.write("keep")
        if target and old:
            with open(target, "w") as f:
                f.write("old")
        p = (DockerImagePuller if kind == "docker" else SingularityImagePuller)(image, pathlib.Path(d) if d and as_path else d, cmd, force)
        with engine(Failing(version, fail, output)) as e:
            try:
                r = ("name", p.get_image_name())
            except Exception as x:  # noqa: BLE001
                r = ("error",)
            if r != (("name", name) if name else ("error",)):
                return f"get_image_name gives {r}, expected {name}"
            if kind == "docker" and p.generate_udocker_loading_command() != f"udocker load -i {name}":
                return p.generate_udocker_loading_command()
            try:
                p.save_docker_image()
                r = ("ok",)
            except Exception as x:  # noqa: BLE001
                r = ("error", x)
        if kind == "docker":
            want = [[cmd, "pull", image]] + ([[cmd, "save", "-o", target, image]] if d else [])
        elif name is None:
            want = []
        elif old and not force:
            want = []
        else:
            want = [[cmd, "pull"] + (["--force"] if force else []) + ["--name", target, "docker://" + image]]
        failed = fail is not None and fail < len(want)
        if failed:
            want = want[:fail + 1]
        if e.calls != want:
            return f"commands {e.calls}, expected {want}"
        bad = failed or kind == "singularity" and name is None
        if (r[0] == "error") != bad:
            return f"ends with {r}, a command failed: {failed}"
        if failed and not isinstance(r[1], subprocess.SubprocessError):
            return f"a failing command surfaces as {r[1]!r}"
        if failed and output and kind == "docker" and fail == 0 and output not in (getattr(r[1], "output", None), *r[1].args):
            return f"the message of the failing command is lost: {r[1]!r}"
        if kind == "docker" and d and len(e.events) > 1 and e.events[1] != (old and not force):
            return f"old file there when saving: {e.events[1]}, old file {old}, force {force}"
        if other and open(other).read() != "keep":
            return "another file was changed"
        if d:
            have = set(os.listdir(d)) - {"other"}
            there = old or (len(want) > 0 and not failed and want[-1][1] != "pull" or kind == "singularity" and len(want) > 0 and not failed)
            if kind == "docker" and failed and fail == 1 and force:
                there = False
            if name and have != ({name} if there else set()):
                return f"files {have} in the directory, expected {name if there else None}"
    return None


GENS = {"case": (gen_case, run_case), "pull": (gen_pull, run_pull)}
COUNTS = {"case": 8000, "pull": 300}
BUDGET, BUDGET_THOROUGH = 20, 150
