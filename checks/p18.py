"""P18: container engine version checks."""
import importlib
import re
import subprocess

from cwl_utils import singularity
from pydv.rel import Contract, Rel, partial

from . import gen
from .driver import rel_job

ID = "P18"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("get_version and the five predicates are proved equal to their specification for every cached or reported flavour and version "
        "(versions as unbounded lists of numbers with at least two entries). Regular expression matching, str.strip/split and the engine's output are uninterpreted; "
        "the concrete parsing is compared with the specification on a bounded enumeration of version strings.")
M = "cwl_utils.singularity:"


def spec_get_version():
    """Asked once, then remembered."""
    if singularity._SINGULARITY_VERSION is None:
        out = subprocess.check_output(["singularity", "--version"], text=True).strip()
        m = re.match(r"(.+) version ([0-9\.]+)", out)
        if m is None:
            raise RuntimeError("not recognized")
        nums = []
        for x in m.group(2).split("."):
            nums.append(int(x))
        singularity._SINGULARITY_VERSION = nums
        singularity._SINGULARITY_FLAVOR = m.group(1)
    return (singularity._SINGULARITY_VERSION, singularity._SINGULARITY_FLAVOR)


def at_least(v, major, minor):
    if v[0] != major:
        return v[0] > major
    return v[1] >= minor


def spec_apptainer_1():
    v = spec_get_version()
    return v[1] == "apptainer" and at_least(v[0], 1, 0)


def spec_2_6():
    v = spec_get_version()
    return v[1] in ("singularity", "singularity-ce") and v[0][0] == 2 and v[0][1] == 6


def newer(minor):
    def spec():
        v = spec_get_version()
        return (v[1] == "apptainer" and at_least(v[0], 1, 0)) or at_least(v[0], 3, minor)
    return spec


spec_3, spec_3_1, spec_3_4 = newer(0), newer(1), newer(4)


@partial
def pre_version():
    """A reported version has at least two non-negative numbers."""
    if not pre_globals():
        return False
    v = spec_get_version()
    return (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], list) and len(v[0]) >= 2 and number(v[0][0])
            and number(v[0][1]) and isinstance(v[1], str))


def number(n):
    return isinstance(n, int) and not isinstance(n, bool) and n >= 0


def pre_globals():
    return (singularity._SINGULARITY_VERSION is None or isinstance(singularity._SINGULARITY_VERSION, list)) and isinstance(singularity._SINGULARITY_FLAVOR, str)


def make():
    return Rel([
        Contract("get_version", M + "get_version", spec_get_version, pre_globals, raises=(RuntimeError, ValueError, subprocess.CalledProcessError, FileNotFoundError), requires=False),
        Contract("apptainer_1", M + "is_apptainer_1_or_newer", spec_apptainer_1, pre_version, ret="B", unfold=True),
        Contract("2_6", M + "is_version_2_6", spec_2_6, pre_version, ret="B"),
        Contract("3", M + "is_version_3_or_newer", spec_3, pre_version, ret="B"),
        Contract("3_1", M + "is_version_3_1_or_newer", spec_3_1, pre_version, ret="B"),
        Contract("3_4", M + "is_version_3_4_or_newer", spec_3_4, pre_version, ret="B"),
    ], universe=(re.Match,), ghost=(("cwl_utils.singularity", "_SINGULARITY_VERSION"), ("cwl_utils.singularity", "_SINGULARITY_FLAVOR")),
        effects={subprocess.check_output: ("subprocess.check_output", "S", (subprocess.CalledProcessError, FileNotFoundError))})


JOBS = [rel_job(make, n) for n in ("get_version", "apptainer_1", "2_6", "3", "3_1", "3_4")]

# ------------------------------------------------------------- bounded checks
FLAVOURS = ["singularity", "singularity-ce", "apptainer", "Apptainer", "singularity-pro", "apptainer-suid", "SingularityPRO"]
NAMES = {"is_apptainer_1_or_newer": spec_apptainer_1, "is_version_2_6": spec_2_6, "is_version_3_or_newer": spec_3,
         "is_version_3_1_or_newer": spec_3_1, "is_version_3_4_or_newer": spec_3_4}


def gen_out(rng, tier):
    f = rng.choice(FLAVOURS)
    n = [rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 9, 10, 11, 25]), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 14, 40])]
    n += [rng.randrange(12) for _ in range(rng.choice([0, 1, 1, 2]))]
    v = ".".join(map(str, n))
    tail = rng.choice(["", "\n", "-1.el8\n", "-rc.1", "+98-g1b0f38d\n", "-dist\n", " (x)"])
    k = rng.random()
    if k < .85:
        return f, n, f"{rng.choice(['', ' '])}{f} version {v}{tail}"
    return None, None, rng.choice([v + "-dist", f"{f} {v}", f"{f} version v{v}", "", "version 3.1", f"{f} version", f"{f}  Version {v}"])


def run_out(c):
    flavour, nums, out = c
    calls = []

    def fake(cmd, *a, **kw):
        calls.append((cmd, kw))
        txt = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
        return out if txt else out.encode()

    def fakerun(cmd, *a, **kw):
        o = fake(cmd, *a, **kw)
        return subprocess.CompletedProcess(cmd, 0, o, o[:0])
    keep = subprocess.check_output, subprocess.run
    subprocess.check_output, subprocess.run = fake, fakerun
    try:
        for order in (list(NAMES), list(NAMES)[::-1]):
            importlib.reload(singularity)
            del calls[:]
            if nums is None:
                for n in order:
                    try:
                        r = getattr(singularity, n)()
                        return f"{n} answers {r} for the unrecognised output {out!r}"
                    except RuntimeError:
                        pass
                continue
            for n in order + order:
                want = {"is_apptainer_1_or_newer": flavour == "apptainer" and tuple(nums[:2]) >= (1, 0),
                        "is_version_2_6": flavour in ("singularity", "singularity-ce") and nums[:2] == [2, 6]}.get(n)
                if want is None:
                    lim = {"is_version_3_or_newer": (3, 0), "is_version_3_1_or_newer": (3, 1), "is_version_3_4_or_newer": (3, 4)}[n]
                    want = flavour == "apptainer" and nums[0] >= 1 or tuple(nums[:2]) >= lim
                got = getattr(singularity, n)()
                if got is not want:
                    return f"{n} is {got} for {flavour} {nums}"
            v = singularity.get_version()
            if v[0] != nums or v[1] != flavour:
                return f"get_version gives {v} for {out!r}"
            if len(calls) != 1 or calls[0][0] != ["singularity", "--version"]:
                return f"engine asked {len(calls)} times: {calls}"
    finally:
        subprocess.check_output, subprocess.run = keep
        importlib.reload(singularity)
    return None


GENS = {"output": (gen_out, run_out)}
COUNTS = {"output": 20000}
BUDGET, BUDGET_THOROUGH = 8, 60
