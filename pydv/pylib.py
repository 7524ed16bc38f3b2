"""Library functions whose model is Python source, executed like any inlined code."""


def argmax(ks):
    """index of the first greatest key (uninterpreted, see models)."""


def argmin(ks):
    """index of the first least key (uninterpreted, see models)."""


def max1(it, key):
    vals = [v for v in it]
    ks = vals if key is None else [key(v) for v in vals]
    if not vals:
        raise ValueError
    return vals[argmax(ks)]


def min1(it, key):
    vals = [v for v in it]
    ks = vals if key is None else [key(v) for v in vals]
    if not vals:
        raise ValueError
    return vals[argmin(ks)]
