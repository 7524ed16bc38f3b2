"""P15: map/list forms and link resolution."""
import copy
import urllib.parse
from urllib.parse import ParseResult, urljoin, urlparse

from cwl_utils import utils
from cwl_utils.errors import MissingKeyField
from pydv.rel import Contract, Rel

from . import gen
from .driver import rel_job

ID = "P15"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3); URL grammar bounded"
NOTE = ("normalize_to_map, normalize_to_list, resolved_path, is_uri, is_local_uri and get_value_from_uri are proved equal to their specification for all values. "
        "urlparse, urljoin, geturl and deepcopy are assumed pure; that map and list forms are inverse and the URL rules themselves are compared on bounded random inputs.")
M = "cwl_utils.utils:"


def spec_to_list(obj, key_field, value_field):
    """One entry per key, in order: the value's content with the key added."""
    if isinstance(obj, list):
        return copy.deepcopy(obj)
    if not isinstance(obj, dict):
        raise RuntimeError("map or list")
    out = []
    for k, v in obj.items():
        if isinstance(v, dict):
            e = v.copy()
        elif value_field is None:
            raise RuntimeError("map")
        else:
            e = {value_field: v}
        e[key_field] = k
        out.append(e)
    return out


def spec_to_map(obj, key_field):
    if isinstance(obj, dict):
        return copy.deepcopy(obj)
    if not isinstance(obj, list):
        raise RuntimeError("map or list")
    out = {}
    for v in obj:
        if not isinstance(v, dict):
            raise RuntimeError("map")
        k = v.get(key_field)
        if k is None:
            raise MissingKeyField(key_field)
        del v[key_field]
        out[k] = v
    return out


def pre_to_list(obj, key_field, value_field):
    return isinstance(key_field, str) and (value_field is None or isinstance(value_field, str))


def pre_to_map(obj, key_field):
    return isinstance(key_field, str) and (not isinstance(obj, list) or all(not isinstance(v, dict) or name(v.get(key_field)) for v in obj))


def name(k):
    return k is None or isinstance(k, str)


def spec_resolved(base_url, link):
    u = urlparse(link)
    if u.scheme != "":
        return u
    if base_url.scheme in ("file://", ""):
        if link == "":
            return base_url
        return urlparse(urljoin(base_url.geturl(), u.geturl()))
    return urlparse(urljoin(base_url.geturl(), u.path))


def is_url(u):
    return isinstance(u, ParseResult) and isinstance(u.scheme, str) and isinstance(u.path, str) and isinstance(u.fragment, str)


def pre_resolved(base_url, link):
    return is_url(base_url) and isinstance(link, str)


def spec_urlparse(url):
    return url


def pre_urlparse(url):
    return isinstance(url, str)


def post_urlparse(url, res):
    return is_url(res)


def spec_is_uri(uri):
    return urlparse(uri).scheme != ""


def spec_is_local(uri):
    return urlparse(uri).scheme == "file"


def spec_value(uri):
    return urlparse(uri).fragment.split("/")[-1]


def make():
    return Rel([
        Contract("to_list", M + "normalize_to_list", spec_to_list, pre_to_list, raises=(RuntimeError,)),
        Contract("to_map", M + "normalize_to_map", spec_to_map, pre_to_map, raises=(RuntimeError, MissingKeyField)),
        Contract("resolved", M + "resolved_path", spec_resolved, pre_resolved),
        Contract("is_uri", M + "is_uri", spec_is_uri, pre_urlparse, ret="B", unfold=True),
        Contract("is_local", M + "is_local_uri", spec_is_local, pre_urlparse, ret="B"),
        Contract("value", M + "get_value_from_uri", spec_value, pre_urlparse, ret="S"),
        Contract("urlparse", "urllib.parse:urlparse", spec_urlparse, pre_urlparse, post=post_urlparse, trusted=True),
    ], universe=(ParseResult,), pure=("urllib.parse.urljoin=S", "urllib.parse.ParseResult.geturl=S"), predicates=(is_url,))


JOBS = [rel_job(make, n) for n in ("to_list", "to_map", "resolved", "is_uri", "is_local", "value")]

# ------------------------------------------------------------- bounded checks
KEYS = ["id", "class", "name", "type", "package"]


def rvalue(rng, d=2):
    r = rng.random()
    if r < .35 or d == 0:
        return rng.choice([None, "x", 1, "", True, "string"])
    if r < .5:
        return [rvalue(rng, d - 1) for _ in range(rng.randrange(3))]
    return {rng.choice(KEYS + ["doc", "items"]): rvalue(rng, d - 1) for _ in range(rng.randrange(4))}


def gen_forms(rng, tier):
    key, val = rng.choice(KEYS), rng.choice([None, "type", "source", "class"])
    r = rng.random()
    if r < .1:
        return rng.choice([None, "x", 3, ("a",)]), key, val
    if r < .55:
        o = {rng.choice("abcdefg") * rng.choice([1, 2]): rvalue(rng) for _ in range(rng.randrange(6))}
        if o and rng.random() < .3:
            v = rng.choice(list(o.values()))
            o["shared"] = v
            o["more"] = v
        return o, key, val
    o = []
    for i in range(rng.randrange(5)):
        e = rvalue(rng)
        if isinstance(e, dict) and rng.random() < .9:
            e[key] = rng.choice(["a", "b", "c", "d", f"k{i}"])
        o.append(e)
    return o, key, val


def plain_list(o, key, val):
    """Specification on structures, independent of sharing."""
    if isinstance(o, list):
        return o
    if not isinstance(o, dict):
        raise RuntimeError
    out = []
    for k in o:
        v = o[k]
        if not isinstance(v, dict):
            if val is None:
                raise RuntimeError
            v = {val: v}
        out.append({**{a: b for a, b in v.items()}, key: k})
    return out


def plain_map(o, key):
    if isinstance(o, dict):
        return o
    if not isinstance(o, list):
        raise RuntimeError
    out = {}
    for v in o:
        if not isinstance(v, dict):
            raise RuntimeError
        if v.get(key) is None:
            raise MissingKeyField(key)
        out[v[key]] = {a: b for a, b in v.items() if a != key}
    return out


def unordered(v):
    return {k: unordered(x) for k, x in v.items()} if isinstance(v, dict) else [unordered(x) for x in v] if isinstance(v, list) else v


def run_forms(c):
    o, key, val = c
    r = gen.agree(gen.outcome(lambda: unordered(utils.normalize_to_list(copy.deepcopy(o), key, val))), gen.outcome(lambda: unordered(plain_list(o, key, val))), "normalize_to_list")
    if r:
        # key order inside an entry is free
        try:
            if utils.normalize_to_list(copy.deepcopy(o), key, val) != plain_list(o, key, val):
                return r
        except RuntimeError:
            return r
    r = gen.outcome(lambda: dict(utils.normalize_to_map(copy.deepcopy(o), key)))
    w = gen.outcome(lambda: plain_map(o, key))
    m = gen.agree(r, w, "normalize_to_map")
    if m and (r[0] == "raise" or w[0] == "raise" or utils.normalize_to_map(copy.deepcopy(o), key) != plain_map(o, key) or list(utils.normalize_to_map(copy.deepcopy(o), key)) != list(plain_map(o, key))):
        return m
    if isinstance(o, dict) and all(isinstance(v, dict) and key not in v for v in o.values()):
        back = utils.normalize_to_map(utils.normalize_to_list(copy.deepcopy(o), key, val), key)
        if back != o or list(back) != list(o):
            return f"map -> list -> map gives {back}"
    if isinstance(o, (dict, list)):
        cp = copy.deepcopy(o)
        out = utils.normalize_to_map(cp, key) if isinstance(o, dict) else utils.normalize_to_list(cp, key, val)
        if out is cp or (out and isinstance(o, list) and any(a is b for a, b in zip(out, cp) if isinstance(a, (dict, list)))) or \
                (out and isinstance(o, dict) and any(out[k] is cp[k] for k in out if isinstance(cp[k], (dict, list)))):
            return "already normal input is not copied"
    return None


def gen_url(rng, tier):
    base = rng.choice(["file:///a/b/c.cwl", "/a/b/c.cwl", "/a/b/", "c.cwl", "a/b.cwl", "http://h.org/x/y.cwl", "https://h.org:8/x/y.cwl?q=1#f", "http://h.org", "", "ftp://h/z"])
    if rng.random() < .3:
        base += rng.choice(["#main", "?v=1", "#"])
    link = rng.choice(["", "d.cwl", "./d.cwl", "../d.cwl", "../../../d.cwl", "/abs/d.cwl", "d.cwl#x/y", "#frag", "http://o.org/k.cwl", "file:///k/l.cwl", "//h2/z", "?q", "mailto:x", "d e.cwl", "d%20e.cwl#f", "x/y/z/", "..", ".",
                       "file://k", "s3://b/k#id/name", "HTTP://O.org/", "a:b", "1:2", "é.cwl", "d.cwl;p=1"])
    if rng.random() < .2:
        link += rng.choice(["#a", "#a/b", "/", "#a/b/"])
    return base, link


def run_url(c):
    base, link = c
    b = urlparse(base)
    got = utils.resolved_path(b, link).geturl()
    l = urlparse(link)
    if l.scheme:
        want = l.geturl()
    elif not link and not b.scheme:
        want = b.geturl()
    elif not b.scheme:
        want = urlparse(urljoin(b.geturl(), l.geturl())).geturl()
    else:
        want = urlparse(urljoin(b.geturl(), l.path)).geturl()
    if got != want:
        return f"resolved_path gives {got!r}, expected {want!r}"
    for u in (base, link):
        # RFC 3986: scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ) ":"
        s = u.split(":", 1)[0] if ":" in u else ""
        scheme = s.lower() if s and s[0].isascii() and s[0].isalpha() and all(ch.isascii() and (ch.isalnum() or ch in "+-.") for ch in s) else ""
        if utils.is_uri(u) is not (scheme != ""):
            return f"is_uri({u!r}) is {utils.is_uri(u)}"
        if utils.is_local_uri(u) is not (scheme == "file"):
            return f"is_local_uri({u!r}) is {utils.is_local_uri(u)}"
        frag = u.split("#", 1)[1] if "#" in u else ""
        if utils.get_value_from_uri(u) != frag[frag.rfind("/") + 1:]:
            return f"get_value_from_uri({u!r}) is {utils.get_value_from_uri(u)!r}"
    return None


GENS = {"forms": (gen_forms, run_forms), "url": (gen_url, run_url)}
COUNTS = {"forms": 30000, "url": 8000}
BUDGET, BUDGET_THOROUGH = 10, 120
