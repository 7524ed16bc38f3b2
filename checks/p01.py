"""P01: string interpolation."""
import json

from schema_salad.utils import json_dumps

from cwl_utils import expression
from cwl_utils.errors import JavascriptException, SubstitutionError, WorkflowException
from cwl_utils.expression import t
from cwl_utils.sandboxjs import NodeJSEngine
from pydv.logic import FALSE, TRUE, mkI, mkR, mkS, z3
from pydv.rel import Contract, Rel

from . import gen
from .driver import rel_job

ID = "P01"
TECHNIQUE = "contracts on the real functions, discharged by a deductive verifier (pydv + z3)"
NOTE = ("scanner, _convert_dumper and interpolate (both modes, every escaping behaviour) are proved equal to their specification, a machine over the text and a concatenation of pieces, for every text and every number of blocks; "
        "the evaluator is an assumed contract here (P02), json.dumps, json.loads and json_dumps are assumed functions; the text is taken as already stripped and the engine as given. "
        "Bounded: random texts against an independent bracket matcher, converted expressions evaluated by node.")
M = "cwl_utils.expression:"


def scan_spec(scan):
    """the next block or escape; brackets nest, quotes hide brackets, a backslash
    hides the next character inside quotes"""
    i, start = 0, 0
    stack = [t.DEFAULT]
    while i < len(scan):
        c, top = scan[i], stack[-1]
        if top == t.DEFAULT:
            if c == "$":
                stack.append(t.DOLLAR)
            elif c == "\\":
                stack.append(t.BACKSLASH)
        elif top == t.BACKSLASH:
            stack.pop()
            if stack[-1] == t.DEFAULT:
                return (i - 1, i + 1)
        elif top == t.DOLLAR:
            if c == "(" or c == "{":
                start = i - 1
                stack.append(t.PAREN if c == "(" else t.BRACE)
            else:
                stack.pop()
                i -= 1
        elif top == t.PAREN or top == t.BRACE:
            if c == ("(" if top == t.PAREN else "{"):
                stack.append(t.PAREN if top == t.PAREN else t.BRACE)
            elif c == (")" if top == t.PAREN else "}"):
                stack.pop()
                if stack[-1] == t.DOLLAR:
                    return (start, i + 1)
            elif c == "'":
                stack.append(t.SINGLE_QUOTE)
            elif c == '"':
                stack.append(t.DOUBLE_QUOTE)
        elif top == t.SINGLE_QUOTE or top == t.DOUBLE_QUOTE:
            if c == ("'" if top == t.SINGLE_QUOTE else '"'):
                stack.pop()
            elif c == "\\":
                stack.append(t.BACKSLASH)
        i += 1
    if len(stack) > 1 and not (len(stack) == 2 and stack[1] in (t.BACKSLASH, t.DOLLAR)):
        raise SubstitutionError("unfinished block")
    return None


def pre_scan(scan):
    return isinstance(scan, str)


def post_scan(scan, res):
    return is_found(res)


def is_found(res):
    return res is None or (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], int) and isinstance(res[1], int))


def dumper(string):
    return f"{json.dumps(string)} + "


def pre_dumper(string):
    return isinstance(string, str)


def call_js(js_engine, ex, obj, jslib, fullJS):
    return ex


def replaced(scan, rootvars, jslib="", fullJS=False, strip_whitespace=True, escaping_behavior=2, convert_to_expression=False, js_engine=None):
    """literal text, values and unescaped characters one after the other; the value
    itself when the first block is the whole text"""
    if strip_whitespace:
        scan = scan.strip()
    parts = ["${return "] if convert_to_expression else []
    found = expression.scanner(scan)
    while found:
        a, b = found[0], found[1]
        parts.append(expression._convert_dumper(scan[0:a]) if convert_to_expression else scan[0:a])
        if scan[a] == "$":
            if convert_to_expression:
                parts.append("function(){var item =" + scan[a:b][2:-1] + '; if (typeof(item) === "string"){ return item; } else { return JSON.stringify(item); }}() + ')
            else:
                js_engine = js_engine or expression.get_js_engine()
                value = expression.evaluator(js_engine, scan[a + 1:b], rootvars, jslib, fullJS)
                if a == 0 and b == len(scan) and len(parts) <= 1:
                    return value
                leaf = json_dumps(value, sort_keys=True)
                if leaf[0] == '"':
                    leaf = json.loads(leaf)
                parts.append(leaf)
        elif scan[a] == "\\":
            if escaping_behavior == 1:
                text = scan[b - 1]
            elif escaping_behavior == 2:
                three = scan[a:b + 1]
                if three == "\\$(" or three == "\\${":
                    text = three[1:]
                    b = b + 1
                elif three[1] == "\\":
                    text = "\\"
                else:
                    text = three[:2]
            else:
                raise Exception("escaping")
            parts.append(expression._convert_dumper(text) if convert_to_expression else text)
        scan = scan[b:]
        found = expression.scanner(scan)
    if convert_to_expression:
        parts.append(json.dumps(scan))
        parts.append(";}")
    else:
        parts.append(scan)
    return "".join(parts)


def pre_interp(scan, rootvars, jslib, fullJS, strip_whitespace, escaping_behavior, convert_to_expression, js_engine):
    return isinstance(scan, str) and isinstance(rootvars, dict) and isinstance(jslib, str) and isinstance(fullJS, bool) and isinstance(strip_whitespace, bool) and \
        isinstance(escaping_behavior, int) and isinstance(convert_to_expression, bool) and isinstance(js_engine, NodeJSEngine)


def string(ex, st, n):
    return mkS(z3.Const(f"arg:{n}.s", z3.StringSort()))


def engine(ex, st, n):
    return mkR(z3.Int(f"arg:{n}.r"))


def boolean(v):
    return lambda ex, st, n: TRUE if v else FALSE


def integer(v):
    return lambda ex, st, n: mkI(z3.IntVal(v))


def pre_other(scan, rootvars, jslib, fullJS, strip_whitespace, escaping_behavior, convert_to_expression, js_engine):
    return isinstance(escaping_behavior, int) and escaping_behavior != 1 and escaping_behavior != 2 and isinstance(rootvars, dict) and isinstance(fullJS, bool) and isinstance(js_engine, NodeJSEngine)


def interpolation(convert, escaping):
    args = {"scan": string, "jslib": string, "convert_to_expression": boolean(convert), "strip_whitespace": boolean(False), "js_engine": engine}
    if escaping:
        args["escaping_behavior"] = integer(escaping)
    return [Contract("interpolate", M + "interpolate", replaced, pre_interp if escaping else pre_other, args=args, raises=(SubstitutionError, WorkflowException, ValueError, IndexError, Exception)),
            Contract("scanner", M + "scanner", scan_spec, None, post=post_scan, inv=is_found, reads=False, raises=(SubstitutionError,), trusted=True),
            Contract("dumper", M + "_convert_dumper", dumper, None, ret="S", reads=False, trusted=True),
            Contract("evaluator", M + "evaluator", call_js, None, raises=(WorkflowException,), trusted=True)]


KINDS = {f"interpolate {'to expression' if c else 'to value'}, escaping {e or 'other'}": (c, e) for c in (False, True) for e in (1, 2, 0)}


def make(part):
    C = {"scanner": lambda: [Contract("scanner", M + "scanner", scan_spec, pre_scan, post=post_scan, raises=(SubstitutionError,))],
         "dumper": lambda: [Contract("dumper", M + "_convert_dumper", dumper, pre_dumper)]}
    if part in C:
        return Rel(C[part](), universe=(NodeJSEngine,), pure=("json.dumps=S",))
    return Rel(interpolation(*KINDS[part]), universe=(NodeJSEngine,), pure=("schema_salad.utils.json_dumps=S", "json.dumps=S", "cwl_utils.expression.get_js_engine"),
               effects={json.loads: ("json.loads", "V", (ValueError,))})


JOBS = [rel_job(lambda p=p: make(p), p, timeout=300) for p in ("scanner", "dumper")] + [rel_job(lambda p=p: make(p), "interpolate", timeout=400, label=p) for p in KINDS]

# ------------------------------------------------------------- bounded checks
import shutil  # noqa: E402
import subprocess  # noqa: E402
import zlib  # noqa: E402

VALUES = ["text", "", "with \"quotes\" and \\ and $(inputs.a)", "é☃", 0, 1, -2.5, True, False, None, [], [1, "b", None], {}, {"b": 1, "a": {"d": [2], "c": "x"}}, 10 ** 18, "\\", "\n", '"']


class Table(NodeJSEngine):
    """answers every expression by a fixed function of its text"""

    def __init__(self):
        super().__init__()
        self.calls = []

    def eval(self, scan, jslib="", *a, **kw):
        self.calls.append((scan, jslib, kw))
        return VALUES[zlib.crc32(scan.encode()) % len(VALUES)]


def block_end(s, i):
    """position after the bracket that matches the one at s[i], None without one"""
    close = {"(": ")", "{": "}"}[s[i]]
    depth, k = 0, i
    while k < len(s):
        if s[k] in "'\"":
            q = s[k]
            k += 1
            while k < len(s) and s[k] != q:
                k += 2 if s[k] == "\\" else 1
            if k >= len(s):
                return None
        elif s[k] == s[i]:
            depth += 1
        elif s[k] == close:
            depth -= 1
            if depth == 0:
                return k + 1
        k += 1
    return None


def cut(s, behaviour):
    """pieces of the text: ("text", t) or ("block", expression)"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            nxt = s[i + 1]
            if behaviour == 1:
                out.append(("text", nxt))
                i += 2
            elif s[i + 1:i + 3] in ("$(", "${"):
                out.append(("text", s[i + 1:i + 3]))
                i += 3
            elif nxt == "\\":
                out.append(("text", "\\"))
                i += 2
            else:
                out.append(("text", s[i:i + 2]))
                i += 2
        elif s[i] == "$" and s[i + 1:i + 2] in ("(", "{"):
            e = block_end(s, i + 1)
            if e is None:
                return None
            out.append(("block", s[i + 1:e]))
            i = e
        else:
            out.append(("text", s[i]))
            i += 1
    return out


BITS = ["a", "b ", "$", "\\", "\\", "(", ")", "{", "}", "'", '"', "$(", "${", "\\$(", "\\${", "\\\\", "\n", "é", "$$", "\\n", "x\\"]
INNER = ["a", "1+2", "(", ")", "()", "(x)", "{", "}", "{}", "'", '"', "')'", '"}"', "'\\''", '"\\""', "'\\\\'", " ", "\\", "$", "$(", "'(", "\")\"", "'\"'", "return 1;", "\n", "'}'", "[", "]"]
REFS = ["$(inputs.a)", "$(inputs.b)", "$(inputs.c)", "$(self)", "$(inputs['d'])", "$(null)"]


def gen_text(rng, tier):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < .45:
            out.append(rng.choice(BITS))
        elif r < .55:
            out.append(rng.choice(REFS))
        elif r < .6:
            out.append("".join(rng.choice(BITS + INNER) for _ in range(rng.randrange(6))))
        else:
            o = rng.choice("({")
            out.append("$" + o + "".join(rng.choice(INNER) for _ in range(rng.randrange(5))) + {"(": ")", "{": "}"}[o])
    s = "".join(out)
    if rng.random() < .2:
        s = rng.choice([" ", "\n", "  "]) + s + rng.choice(["", " ", "\t"])
    return s, rng.choice([1, 2, 2]), rng.random() < .7


def run_text(c):
    s, behaviour, strip = c
    ctx = {"inputs": {"a": "text a", "b": [1, {"y": 1, "x": 2}], "c": None, "d": 5}, "self": {"z": 1, "k": "v"}, "runtime": {}}
    known = {"(inputs.a)": "text a", "(inputs.b)": [1, {"y": 1, "x": 2}], "(inputs.c)": None, "(self)": ctx["self"], "(inputs['d'])": 5, "(null)": None}
    e = Table()
    try:
        got = ("ok", expression.interpolate(s, ctx, fullJS=True, strip_whitespace=strip, escaping_behavior=behaviour, js_engine=e, jslib="LIB", timeout=9))
    except SubstitutionError:
        got = ("unfinished",)
    text = s.strip() if strip else s
    pieces = cut(text, behaviour)
    if pieces is None:
        return None if got == ("unfinished",) else f"unfinished block gives {got}"
    blocks = [b for k, b in pieces if k == "block"]
    want = [b for b in blocks if b not in known]
    if [x[0] for x in e.calls] != want and not all(b in known or b not in [x[0] for x in e.calls] for b in blocks):
        return f"evaluated {[x[0] for x in e.calls]}, expected {want}"
    if any(x[1] != "LIB" or x[2].get("timeout") != 9 for x in e.calls):
        return f"options {e.calls}"

    def value(b):
        return known[b] if b in known else VALUES[zlib.crc32(b.encode()) % len(VALUES)]
    if len(pieces) == 1 and blocks:
        exp = value(blocks[0])
        return None if got[0] == "ok" and type(got[1]) is type(exp) and got[1] == exp else f"{got}, expected the value {exp!r}"
    exp = "".join(p if k == "text" else (value(p) if isinstance(value(p), str) else json.dumps(value(p), sort_keys=True)) for k, p in pieces)
    return None if got == ("ok", exp) else f"{got}, expected {exp!r}"


JS = [("1+2", "3"), ("'a\\'b'", "a'b"), ('"x)y"', "x)y"), ("null", "null"), ("true", "true"), ("[]", "[]"), ("(function(){return 'in {}'})()", "in {}"), ("'\\\\'", "\\"), ("'$(no)'", "$(no)"), ('"q\\"q"', 'q"q'),
      ("2.5", "2.5"), ("''", ""), ("({a:1}).a", "1"), ("[1].length", "1"), ("{}", "{}"), ('[1]', "[1]")]
LIT = ["a", "b c", "'", '"', "\\", "\\\\", "\n", "é", "☃", "$", "(", ")", "{", "}", "`${x}`"[0], "\\$(", "\\${", "+", ";", "//", "/*", "\t", "\\n", "</", "\u2028"]


def gen_convert(rng, tier):
    out = []
    for _ in range(25):
        items = []
        for _ in range(rng.randrange(1, 7)):
            items.append(("js",) + rng.choice(JS) if rng.random() < .45 else ("lit", rng.choice(LIT)))
        out.append(("".join(x[1] if x[0] == "lit" else f"$({x[1]})" for x in items), rng.choice([1, 2])))
    return out


def run_convert(cs):
    node = shutil.which("node") or shutil.which("nodejs")
    if node is None:
        return None
    js, exp = [], []
    for s, behaviour in cs:
        pieces = cut(s, behaviour)
        table = {f"({a})": b for a, b in JS}
        if pieces is None or any(k == "block" and p not in table for k, p in pieces):
            if pieces is None:
                try:
                    r = expression.interpolate(s, {}, strip_whitespace=False, escaping_behavior=behaviour, convert_to_expression=True)
                    return f"{s!r} with an unfinished block becomes {r!r}"
                except SubstitutionError:
                    pass
            continue
        code = expression.interpolate(s, {}, strip_whitespace=False, escaping_behavior=behaviour, convert_to_expression=True)
        if not (code.startswith("${") and code.endswith("}") and block_end(code, 1) == len(code)):
            return f"{s!r} becomes {code!r}, which is not one expression block"
        js.append("(function()" + code[1:] + ")()")
        exp.append((s, behaviour, code, "".join(p if k == "text" else table[p] for k, p in pieces)))
    prog = "".join("try{r.push(eval(c))}catch(e){r.push({e:String(e)})};".replace("c)", json.dumps(x) + ")", 1) for x in js)
    p = subprocess.run([node, "-e", "var r=[];" + prog + "console.log(JSON.stringify(r))"], capture_output=True, text=True, timeout=60)
    if p.returncode != 0:
        return f"node failed: {p.stderr[-500:]}"
    for v, (s, behaviour, code, want) in zip(json.loads(p.stdout), exp):
        if v != want:
            return f"{s!r} (escaping {behaviour}) becomes {code!r} with value {v!r}, expected {want!r}"
    return None


GENS = {"interpolate": (gen_text, run_text), "convert": (gen_convert, run_convert)}
COUNTS = {"interpolate": 60000, "convert": 40}
