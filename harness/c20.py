"""Metadata paths: always relative, in one spelling, and comparable."""


def _want(args):
    """The components that the arguments stand for: an absolute one discards what is before it"""
    parts = []
    for a in args:
        if isinstance(a, str):
            if a.startswith("/"):
                parts = []
            parts = parts + [c for c in a.split("/") if c != "" and c != "."]
        else:
            parts = parts + list(a.parts)
    return parts


def _check(H, p, want, what):
    P = H.M.MetadataPath
    s = str(p)
    H.check(not s.startswith("/"), "never absolute", what)
    H.check(not p.is_absolute(), "never absolute", what)
    H.check(list(p.parts) == want, "the non-trivial components in order", what)
    H.check(s == "/".join(want), "one spelling", what)
    H.check(len(p) == len(want), "the length is the number of components", what)
    q = P(s)
    H.check(q == p and str(q) == s, "its text gives the same path", what)
    H.check(hash(q) == hash(p), "equal paths are the same key", what)
    H.check(isinstance(p, P), "a metadata path", what)


def one(H):
    """Every text up to a length."""
    P = H.M.MetadataPath
    s = H.str("text", H.bound("len", 4), alpha=H.bound("alpha", "any"))
    _check(H, P(s), _want([s]), "")
    H.check((P(s) == P("")) == (_want([s]) == []), "the empty path")
    H.observe([str(P(s)), len(P(s))])


def several(H):
    """Several texts or paths at once, and joining."""
    P = H.M.MetadataPath
    n = H.int("arguments", 0, H.bound("arguments", 2))
    args = []
    for i in range(n):
        s = H.str("text", H.bound("len", 2), alpha=((46, 47), (97, 98)))
        args.append(P(s) if H.bool("a path") else s)
    want = _want(args)
    _check(H, P(*args), want, "constructed")
    if n == 2:
        joined = P(args[0]) / args[1]
        H.check(isinstance(joined, P), "joining gives a metadata path")
        _check(H, joined, want, "joined")


def two(H):
    """Equality, order of creation and use as keys, for every two texts."""
    P = H.M.MetadataPath
    s = H.str("first", H.bound("len", 3), alpha=((46, 47), (97, 98)))
    t = H.str("second", H.bound("len", 3), alpha=((46, 47), (97, 98)))
    p, q = P(s), P(t)
    same = _want([s]) == _want([t])
    H.check((p == q) == same, "equal exactly if the components are")
    d = {p: 1}
    H.check((q in d) == same, "found as a key exactly if equal")
    d[q] = 2
    H.check(len(d) == (1 if same else 2) and d[p] == (2 if same else 1), "one entry per path")


def parents(H):
    """Parents, names and components lead back to the path."""
    P = H.M.MetadataPath
    s = H.str("text", H.bound("len", 4), alpha=((46, 47), (97, 98)))
    p = P(s)
    want = _want([s])
    if want:
        H.check(p.name == want[-1], "name")
        H.check(list(p.parent.parts) == want[:-1], "parent")
        H.check(P("/".join(p.parts[:-1])) / p.parts[-1] == p, "parent and name")
        H.check(P(p.parts[0]) / P("/".join(p.parts[1:])) == p, "first component and rest")
    H.check(P("") / p == p and p / P("") == p, "the empty path changes nothing")
    H.check(P(p) == p, "a path of a path")
