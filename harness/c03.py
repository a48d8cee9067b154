"""Metadata survive serialisation and storage with all their content."""
from harness.util import runs, same_runs, uuid


def value(H, depth, n):
    """Any JSON value of limited depth with arbitrary strings."""
    kinds = ["null", "true", "false", "int", "float", "str"] + (["list", "dict"] if depth > 0 else [])
    k = H.pick("kind", kinds)
    if k == "null":
        return None
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "int":
        return H.pick("int", [0, 1, -7, 2 ** 70])
    if k == "float":
        return H.pick("float", [0.0, 0.1 + 0.2, -1.5e300])
    if k == "str":
        return H.str("text", n)
    if k == "list":
        k = H.int("elements", 0, 2)
        return [value(H, depth - 1, n)] * min(k, 1) + [["x"]] * (k - 1)
    out = {}
    k = H.int("entries", 0, 2)
    if k:
        out[H.str("key", n)] = value(H, depth - 1, n)
    if k > 1:
        out[H.str("key", n)] = ["x"]
    return out


def _store(H, m, how):
    """m after a round trip"""
    M = H.M
    if how == "json":
        return M.Metadata.from_json(m.to_json())
    realm = H.repo()
    if how == "object":
        ref = m.write_out(realm)
        H.restart()
        return H.M.Metadata(realm, H.M.Reference("Metadata", ref.location)).read_in()
    if how == "file":
        t = M.FileTree()
        t.add_metadata(M.MetadataPath("d/f"), m)
        ref = t.write_out(realm)
        H.restart()
        t = H.M.FileTree(None, realm, H.M.Reference("MTreeNode", ref.location))
        return t.get_metadata(H.M.MetadataPath("d/f"))
    if how == "purge":
        m.write_out(realm)
        m.purge()
        return m
    r = M.MetadataRootRecord(uuid(1), "v", m, None)
    ref = r.write_out(realm)
    H.restart()
    r = H.M.MetadataRootRecord.get_empty_instance(realm, H.M.Reference("MetadataRootRecord",
                                                                       ref.location))
    return r.get_dataset_level_metadata()


def _back(H, before, m, how):
    got = _store(H, m, how)
    H.check(same_runs(runs(got), before), "content is the same", how)
    H.reach(how)
    return got


def text_fields(H):
    """One field of a run holds an arbitrary text; every way to store it."""
    how = H.pick("how", ["json", "object", "file", "record", "purge"])
    n = H.bound("len", 2)
    field = H.pick("field", ["extractor", "version", "author", "mail", "key", "value", "content"])
    s = H.str("text", n)
    g = lambda name, default: s if field == name else default
    m = H.M.Metadata()
    m.add_extractor_run(0.0, g("extractor", "e"), g("author", "n"), g("mail", "m"),
                        H.M.ExtractorConfiguration(g("version", "1"), {g("key", "k"): g("value", "w")}),
                        {"c": g("content", "t")})
    before = runs(m)
    got = _back(H, before, m, how)
    (e, rs), = runs(got).items()
    H.observe([e, rs[0][0], rs[0][3], rs[0][4], rs[0][5]])


def content(H):
    """The content (or the parameters) is an arbitrary JSON value."""
    how = H.pick("how", ["json", "file"])
    x = value(H, H.bound("depth", 1), H.bound("len", 1))
    m = H.M.Metadata()
    if H.bool("parameter"):
        m.add_extractor_run(1620000000.1234567, "e", "n", "m", H.M.ExtractorConfiguration("1", {"p": x}), None)
    else:
        m.add_extractor_run(0.1 + 0.2, "e", "n", "m", H.M.ExtractorConfiguration("1", {}), x)
    before = runs(m)
    got = _back(H, before, m, how)
    (e, rs), = runs(got).items()
    H.observe([rs[0][1], rs[0][5]])


def several(H):
    """Several extractors and configurations, added in any order, repeated round trips."""
    m = H.M.Metadata()
    want = {}
    n = H.bound("runs", 3)
    trips = H.int("round trips", 0, H.bound("trips", 1))
    for i in range(n):
        e = H.pick("extractor", ["x", "y"])
        v = H.pick("version", ["1", "2"])
        p = H.pick("parameter", [{}, {"a": [1, {"b": None}]}])
        m.add_extractor_run(float(i), e, f"n{i}", f"m{i}", H.M.ExtractorConfiguration(v, p), [i])
        want[(e, v, repr(p))] = i
        if trips and H.bool("round trip"):
            trips -= 1
            m = _store(H, m, H.pick("way", ["json", "object"]))
    got = _store(H, m, "file")
    have = {}
    for e, rs in runs(got).items():
        for v, p, ts, author, mail, c in rs:
            H.check((e, v, repr(p)) not in have, "one run per configuration")
            have[(e, v, repr(p))] = c[0]
            H.check(ts == float(c[0]) and author == f"n{c[0]}" and mail == f"m{c[0]}", "provenance")
    H.check(have == want, "all runs are there")
    H.check(sorted(got.extractors) == sorted({k[0] for k in want}), "extractors")
    H.observe(sorted([list(k), v] for k, v in have.items()))


def parts(H):
    """The serialisation of the parts of metadata, on their own."""
    s = H.str("text", H.bound("len", 2))
    c = H.M.ExtractorConfiguration(s, {"k": [s, {s: 1}]})
    d = H.M.ExtractorConfiguration.from_json_str(c.to_json_str())
    H.check(c == d and d.version == s and d.parameter == {"k": [s, {s: 1}]}, "configuration")
    i = H.M.MetadataInstance(0, s, "m", c, s)
    j = H.M.MetadataInstance.from_json_str(i.to_json_str())
    H.check(i == j and j.author_name == s and j.metadata_content == s and j.time_stamp == 0
            and j.author_email == "m" and j.configuration == c, "instance")
    x = H.M.MetadataInstanceSet([i, H.M.MetadataInstance(1, "a", "b",
                                                         H.M.ExtractorConfiguration("other", {}), s)])
    y = H.M.MetadataInstanceSet.from_json_str(x.to_json_str())
    H.check(x == y, "instance set")
    H.check(y.configurations == x.configurations, "configurations")
    H.observe([d.version, j.metadata_content])
