"""P08: loadContents."""
import importlib
import io
import os
from codecs import utf_8_decode

from cwl_utils.errors import WorkflowException
from pydv.rel import Contract, Rel

from . import gen  # noqa: F401
from .driver import rel_job

ID = "P08"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("content_limit_respected_read_bytes and content_limit_respected_read are proved, in each version, to return the whole or the first 64 KiB, to refuse longer files in v1.2 and to consume exactly "
        "min(size, limit) bytes, for files of every size (a file is a byte string with a position, read(n) returns the next at most n bytes). UTF-8 decoding is an uninterpreted function of the bytes; "
        "how it treats a character cut in two is compared on bounded random texts around the limit.")
VERSIONS = ("v1_0", "v1_1", "v1_2")
MODS = {v: importlib.import_module(f"cwl_utils.parser.cwl_{v}_utils") for v in VERSIONS}
LIMIT = 65536


class Source:
    """A file opened for reading bytes."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, n=-1):
        if n < 0:
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + len(r)
        return r


def pre(f):
    return isinstance(f, Source) and isinstance(f.data, bytes) and isinstance(f.pos, int) and not isinstance(f.pos, bool) and f.pos == 0


def bytes_cut(f):
    if len(f.data) <= LIMIT:
        f.pos = len(f.data)
        return f.data
    f.pos = LIMIT
    return f.data[:LIMIT]


def bytes_refuse(f):
    if len(f.data) <= LIMIT:
        f.pos = len(f.data)
        return f.data
    f.pos = LIMIT + 1
    raise WorkflowException("too large")


def text_cut(f):
    """a file that fills the limit may end in the middle of a character"""
    b = bytes_cut(f)
    return utf_8_decode(b, "strict", len(b) < LIMIT)[0]


def text_refuse(f):
    return bytes_refuse(f).decode("utf-8")


def make(v):
    m = f"cwl_utils.parser.cwl_{v}_utils:"
    cut = v != "v1_2"
    return Rel([
        Contract("bytes", m + "content_limit_respected_read_bytes", bytes_cut if cut else bytes_refuse, pre, ret="Y", raises=() if cut else (WorkflowException,), modifies=(("f", "pos"),)),
        Contract("text", m + "content_limit_respected_read", text_cut if cut else text_refuse, pre, ret="S", raises=(UnicodeDecodeError,) + (() if cut else (WorkflowException,)), modifies=(("f", "pos"),)),
    ], universe=(Source,), pure=("_codecs.utf_8_decode=V",))


JOBS = [rel_job(lambda v=v: make(v), c, label=f"{v}.{c}") for v in VERSIONS for c in ("bytes", "text")]

# ------------------------------------------------------------- bounded checks
UNITS = ["a", "é", "€", "😀", "\n", "b"]


class Counted(io.BytesIO):
    used = 0

    def read(self, n=-1):
        r = super().read(n)
        self.used = max(self.used, self.tell())
        return r

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        n = super().readinto(b)
        self.used = max(self.used, self.tell())
        return n

    def readline(self, n=-1):
        r = super().readline(n)
        self.used = max(self.used, self.tell())
        return r

    def readlines(self, n=-1):
        r = super().readlines(n)
        self.used = max(self.used, self.tell())
        return r

    def __next__(self):
        r = super().__next__()
        self.used = max(self.used, self.tell())
        return r

    def getvalue(self):
        self.used = 1 << 30
        return super().getvalue()


def gen_file(rng, tier):
    size = rng.choice([0, 1, 3, 100, LIMIT - 5, LIMIT - 2, LIMIT - 1, LIMIT, LIMIT, LIMIT + 1, LIMIT + 1, LIMIT + 2, LIMIT + 3, LIMIT + 4, 2 * LIMIT, rng.randrange(2 * LIMIT)])
    unit = rng.choice(UNITS)
    tail = "".join(rng.choice(UNITS) for _ in range(min(size, 12)))
    t = tail.encode()
    n = size - len(t)
    if n < 0:
        return rng.choice(VERSIONS), "", 0, tail, rng.random() < .5
    # the odd characters stand around the limit
    k = min(n, max(0, LIMIT - rng.randrange(0, 12)))
    return rng.choice(VERSIONS), rng.choice(["a", unit]), k, tail, rng.random() < .3


def run_file(c):
    v, unit, k, tail, whole = c
    u = unit.encode()
    text = (unit * (k // len(u)) + "x" * (k % len(u)) if u else "") + tail * (1 if not whole else 3)
    b = text.encode()
    m = MODS[v]
    for n in ("content_limit_respected_read", "content_limit_respected_read_bytes"):
        f = Counted(b)
        try:
            r = ("ok", getattr(m, n)(f))
        except WorkflowException:
            r = ("refused",)
        except UnicodeDecodeError:
            r = ("undecodable",)
        if len(b) <= LIMIT:
            want = ("ok", b if n.endswith("bytes") else text)
        elif v == "v1_2":
            want = ("refused",)
        elif n.endswith("bytes"):
            want = ("ok", b[:LIMIT])
        else:
            want = ("ok", b[:LIMIT].decode(errors="ignore"))
        if r != want:
            short = lambda x: (x[0], len(x[1]), x[1][-8:]) if len(x) > 1 else x
            return f"{n} of {v} for {len(b)} bytes gives {short(r)}, expected {short(want)}"
        if f.used > LIMIT + 1:
            return f"{n} of {v} consumes {f.used} of {len(b)} bytes"
    return None


def gen_bad(rng, tier):
    """bytes that are no text at all, well inside the limit"""
    return rng.choice(VERSIONS), rng.choice([b"\xff", b"a\xc3", b"\x80abc", b"abc\xe2\x82", b"ok \xf0\x9f"]) + rng.choice([b"", b"zz"])


def run_bad(c):
    v, b = c
    try:
        r = MODS[v].content_limit_respected_read(io.BytesIO(b))
    except UnicodeDecodeError:
        return None
    return f"{b!r} is decoded to {r!r} in {v}"


GENS = {"file": (gen_file, run_file), "bad": (gen_bad, run_bad)}
COUNTS = {"file": 3000, "bad": 60}
BUDGET, BUDGET_THOROUGH = 8, 60
