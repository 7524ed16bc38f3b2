"""Self-test of the verifier: right bodies must be accepted, wrong ones must not.
Run: cd /verif && /opt/venv/bin/python -m pydv.selftest"""
import sys

from pydv.rel import Contract, Rel


def count(xs, y):
    n = 0
    for x in xs:
        if x == y:
            n += 1
    return n


def count_bad(xs, y):
    n = 0
    for x in xs:
        if x == y:
            n += 1
            break
    return n


def spec_count(xs, y):
    k = 0
    for i in range(len(xs)):
        if xs[i] == y:
            k = k + 1
    return k


def texts(xs, y):
    return isinstance(xs, list) and isinstance(y, str) and all(isinstance(x, str) for x in xs)


def keep(xs, y):
    return [x for x in xs if x != y]


def keep_bad(xs, y):
    return [x for x in xs if x is not None]


def spec_keep(xs, y):
    out = []
    for x in xs:
        if not x == y:
            out.append(x)
    return out


def fill(d, k):
    if k not in d:
        d[k] = []
    d[k].append(k)


def fill_alias(d, k):
    d[k] = d.get(k, []) + [k]


def fill_frame(d, k):
    d.setdefault(k, []).append(k)
    d["extra"] = 1


def spec_fill(d, k):
    if k in d:
        d[k].append(k)
    else:
        d[k] = [k]


def lists(d, k):
    return isinstance(d, dict) and isinstance(k, str) and (k not in d or isinstance(d[k], list))


def first(xs):
    try:
        return xs[0]
    except IndexError:
        return None


def first_bad(xs):
    return xs[0]


def first_minus(xs):
    return xs[-1] if xs else None


def spec_first(xs):
    return xs[0] if len(xs) > 0 else None


def a_list(xs):
    return isinstance(xs, list)


def depth(t):
    if isinstance(t, list):
        return [depth(x) for x in t]
    return 0 if t is None else 1


def depth_bad(t):
    if isinstance(t, list):
        return [depth_bad(x) for x in t] if t else None
    return 0 if t is None else 1


def spec_depth(t):
    if isinstance(t, list):
        out = []
        for x in t:
            out.append(spec_depth(x))
        return out
    if t is None:
        return 0
    return 1


def any_value(t):
    return True


def cut(s, p):
    return s[len(p):] if s.startswith(p) else s


def cut_bad(s, p):
    return s[len(p) + 1:] if s.startswith(p) else s


def cut_everywhere(s, p):
    return s.replace(p, "")


def spec_cut(s, p):
    return s.removeprefix(p)


def two_texts(s, p):
    return isinstance(s, str) and isinstance(p, str)


def swap(a, b):
    a["x"], b["x"] = b["x"], a["x"]


def swap_alias(a, b):
    a["x"] = b["x"]
    b["x"] = a["x"]


def spec_swap(a, b):
    t = a["x"]
    a["x"] = b["x"]
    b["x"] = t


def two_maps(a, b):
    return isinstance(a, dict) and isinstance(b, dict) and "x" in a and "x" in b


def late(t):
    n = 1

    def get():
        return n

    n = 2
    return get()


def spec_late(t):
    return 2


def spec_late_bad(t):
    return 1


def counter(t):
    n = 0

    def add(k):
        nonlocal n
        n += k

    add(1)
    if t is None:
        add(2)
    return n


def spec_counter(t):
    return 3 if t is None else 1


def spec_counter_bad(t):
    return 0


def contradiction(xs):
    return isinstance(xs, list) and isinstance(xs, dict)


CASES = [  # real, spec, pre, accepted
    (count, spec_count, texts, True), (count_bad, spec_count, texts, False),
    (keep, spec_keep, texts, True), (keep_bad, spec_keep, texts, False),
    (fill, spec_fill, lists, True), (fill_alias, spec_fill, lists, False), (fill_frame, spec_fill, lists, False),
    (first, spec_first, a_list, True), (first_bad, spec_first, a_list, False), (first_minus, spec_first, a_list, False),
    (depth, spec_depth, any_value, True), (depth_bad, spec_depth, any_value, False),
    (cut, spec_cut, two_texts, True), (cut_bad, spec_cut, two_texts, False), (cut_everywhere, spec_cut, two_texts, False),
    (swap, spec_swap, two_maps, True), (swap_alias, spec_swap, two_maps, False),
    (late, spec_late, any_value, True), (late, spec_late_bad, any_value, False),
    (counter, spec_counter, any_value, True), (counter, spec_counter_bad, any_value, False),
    (first_bad, spec_first, contradiction, False),  # vacuous: must not count as proved
]


def run():
    wrong = 0
    for real, spec, pre, want in CASES:
        try:
            results, ex = Rel([Contract("f", f"{__name__ if __name__ != '__main__' else 'pydv.selftest'}:{real.__name__}", spec, pre, raises=())]).verify("f")
            got = bool(results) and all(r.status == "proved" for r in results)
            why = "" if got else "; ".join(f"{r.status}" for r in results if r.status != "proved")[:60]
        except Exception as e:  # noqa: BLE001
            got, why = False, repr(e)[:80]
        if got != want:
            wrong += 1
        print(f"{'ok   ' if got == want else 'WRONG'} {real.__name__:16} against {spec.__name__:12} {'proved' if got else 'not proved'} {why}")
    return wrong


if __name__ == "__main__":
    from pydv import selftest
    sys.exit(bool(selftest.run()))
