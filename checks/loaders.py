"""Structure of a parser's field loaders, as plain data."""


def describe(l, mod, seen=()):
    k = type(l).__name__
    if id(l) in seen:
        return ["again", getattr(l, "name", None) or k]
    seen = seen + (id(l),)
    d = lambda x: describe(x, mod, seen)
    if k == "_AnyLoader":
        return ["any"]
    if k == "_PrimitiveLoader":
        return ["prim"] + sorted(t.__name__ for t in (l.tp if isinstance(l.tp, tuple) else (l.tp,)))
    if k == "_ArrayLoader":
        return ["array", d(l.items)]
    if k == "_MapLoader":
        return ["map", d(l.values)]
    if k == "_EnumLoader":
        return ["enum", list(l.symbols)]
    if k == "_SecondaryDSLLoader":
        return ["secondary", d(l.inner)]
    if k == "_RecordLoader":
        return ["record", l.classtype.__name__]
    if k == "_ExpressionLoader":
        return ["expression"]
    if k == "_UnionLoader":
        return ["union"] + [d(a) for a in l.alternates]
    if k == "_URILoader":
        return ["uri", d(l.inner), l.scoped_id, l.vocab_term, l.scoped_ref, l.no_link_check]
    if k == "_TypeDSLLoader":
        return ["typedsl", d(l.inner), l.refScope, l.salad_version]
    if k == "_IdMapLoader":
        return ["idmap", d(l.inner), l.mapSubject, l.mapPredicate]
    if k == "_ProxyLoader":
        return ["proxy", l.name]
    return [k]
