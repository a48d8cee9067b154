"""Extractor runs: the latest run of every configuration is kept, and only that."""
import time

from harness.util import runs, same_runs

PARAMETERS = [{}, {"a": "x"}, {"a": ["x", {"b": None}]}, {"a": ["x", {"b": 1}]}, {"b": "y", "a": "x"},
              {"a": "x", "b": "y"}]


def _conf(H):
    version = H.str("version", 1, alpha="ab")
    parameter = H.pick("parameter", PARAMETERS[:H.bound("parameters", 6)])
    return version, parameter


def latest(H):
    """Any sequence of runs on one object, directly or as a file of a tree, with a stop in between
    where the object is stored and loaded again."""
    n = H.bound("runs", 3)
    through_tree = H.bool("tree")
    P = H.M.MetadataPath
    realm = None
    store_after = H.int("store after", 0, n - 1)   # 0: never
    target = H.M.FileTree() if through_tree else H.M.Metadata()
    if through_tree:
        # an item without runs may be there already, in memory or in a store
        there = H.pick("item there", ["no", "empty", "stored empty"] if store_after == 0 else ["no", "empty"])
        if there != "no":
            target.add_metadata(P("d/f"), H.M.Metadata())
        if there == "stored empty":
            realm = H.repo()
            ref = target.write_out(realm)
            H.restart()
            P = H.M.MetadataPath
            target = H.M.FileTree(None, realm, H.M.Reference("MTreeNode", ref.location))
    model = []
    for i in range(n):
        e = H.str("extractor", 1, 1, "ab")
        v, p = _conf(H)
        # the last run may have an older time stamp than those before
        ts = H.pick("time stamp", [None, 0, 0.5]) if i == n - 1 else 5.0 + i
        before = time.time()
        args = (ts, e, f"n{i}", f"m{i}", H.M.ExtractorConfiguration(v, p), {"i": i})
        if through_tree:
            target.add_extractor_run(P("d/f"), *args)
        else:
            target.add_extractor_run(*args)
        after = time.time()
        model = [r for r in model if not (r[0] == e and r[1] == v and r[2] == p)]
        model.append((e, v, p, ts, i, before, after))
        if i + 1 == store_after:
            realm = H.repo()
            ref = target.write_out(realm)
            H.restart()
            P = H.M.MetadataPath
            if through_tree:
                target = H.M.FileTree(None, realm, H.M.Reference("MTreeNode", ref.location))
            else:
                target = H.M.Metadata(realm, H.M.Reference("Metadata", ref.location))
    m = target.get_metadata(P("d/f")) if through_tree else target
    got = runs(m)
    H.check(sum(len(x) for x in got.values()) == len(model), "one run for each configuration")
    names = []
    for e, v, p, ts, i, before, after in model:
        if e not in names:
            names.append(e)
        H.check(e in got, "extractor is there")
        hits = [x for x in got[e] if x[0] == v and x[1] == p]
        H.check(len(hits) == 1, "configuration is there once")
        _, _, t, author, mail, content = hits[0]
        H.check(content == {"i": i} and author == f"n{i}" and mail == f"m{i}", "the latest run is kept")
        if ts is None:
            H.check(t is not None and before <= t <= after, "the current time is recorded")
            H.reach("now")
        else:
            H.check(t == ts, "the given time is recorded")
        s = m.extractor_runs_for_extractor(e)
        inst = s.get_instance_for_configuration(H.M.ExtractorConfiguration(v, p))
        H.check(inst.metadata_content == {"i": i}, "lookup by configuration")
        H.check(len([c for c in s.configurations
                     if c == H.M.ExtractorConfiguration(v, p)]) == 1, "listed configurations")
        k = [c == H.M.ExtractorConfiguration(v, p) for c in s.configurations].index(True)
        H.check(s.get_instance_for_configuration_index(k).metadata_content == {"i": i},
                "lookup by configuration index")
        H.check(len(s.configurations) == len([1 for r in model if r[0] == e]), "number of configurations")
        H.check(len(list(s)) == len(s.instances) == len(s.configurations), "number of instances")
    H.check(len(got) == len(names), "no other extractors")
    H.check(sorted(m.extractors) == sorted(names), "extractor names")
    if len(model) < n:
        H.reach("replaced")
    H.observe_bag([[e, v, i] for e, v, p, ts, i, b, a in model])


def order(H):
    """Objects with the same runs are equal, however they were built."""
    M = H.M
    n = H.bound("runs", 2)
    seq = []
    for i in range(n):
        e = H.pick("extractor", ["x", "y"])
        v, p = _conf(H)
        if any(s[0] == e and s[1] == v and s[2] == p for s in seq):
            return
        seq.append((e, v, p, float(i)))
    other = list(seq)
    if H.bool("reversed"):
        other.reverse()
    change = H.pick("change", ["none", "drop", "time", "author", "mail", "content", "extractor"])

    def build(rs, change):
        m = M.Metadata()
        for k, (e, v, p, t) in enumerate(rs):
            c = k == len(rs) - 1
            if c and change == "drop":
                continue
            m.add_extractor_run(t + 100 if c and change == "time" else t,
                                "z" if c and change == "extractor" else e,
                                "other" if c and change == "author" else f"n{t}",
                                "other" if c and change == "mail" else "m",
                                M.ExtractorConfiguration(v, dict(p)),
                                {"c": "other"} if c and change == "content" else {"c": t})
        return m
    a, b = build(seq, "none"), build(other, change)
    H.check((a == b) == (change == "none"), "equality of objects with the same runs", change)
    H.check((b == a) == (change == "none"), "equality is symmetric", change)
    for name in a.extractors:
        if name in list(b.extractors):
            x, y = a.extractor_runs_for_extractor(name), b.extractor_runs_for_extractor(name)
            H.check((x == y) == same_runs({"": _plain(x)}, {"": _plain(y)}), "equality of run sets", change)
    if H.bool("json"):
        c = M.Metadata.from_json(b.to_json())
        H.check((a == c) == (change == "none") and b == c, "equality after a round trip", change)
    H.reach(change)


def _plain(s):
    return [(i.configuration.version, dict(i.configuration.parameter), i.time_stamp, i.author_name,
             i.author_email, i.metadata_content) for i in s]


# (-1 and -2 have the same hash, and so have 0 and the last one)
NUMBERS = [0, 1, 1.0, 2, 1.5, -1, -2, 10 ** 20, 1e20, 2 ** 61 - 1]
VALUES = [None, True, False, 1, 0, 1.5, ["x"], [1], [], {}, {"x": 1}]


def configurations(H):
    """Configurations are equal (and then have the same hash) exactly if version and parameters are."""
    M = H.M
    p = q = {}
    v = w = "1"
    what = H.pick("what", ["fixed", "text", "type", "key and value", "order", "numbers", "nested", "lists"])
    if what == "fixed":
        v, w = H.str("version", 1), H.str("version", 1)
        p, q = H.pick("parameter", PARAMETERS), H.pick("parameter", PARAMETERS)
    elif what == "text":
        s, t = H.str("text", 1), H.str("text", 1)
        p, q = {"k": [s]}, {"k": [t]}
    elif what == "type":
        # a text is not the same as the value that is written like it
        x = H.pick("value", VALUES)
        n = len(str(x))
        # texts of that length, of characters that occur in how values are written (and one other)
        p, q = {"k": x}, {"k": H.str("text", n, n, tuple((ord(c), ord(c)) for c in
                                                         sorted(set(str(x)) | set("\"nz"))))}
        if H.bool("within"):
            p, q = {"k": [p["k"]]}, {"k": [q["k"]]}
    elif what == "key and value":
        p = {H.str("key", 2, 1, "ab"): H.str("value", 2, 1, "ab")}
        q = {H.str("key", 2, 1, "ab"): H.str("value", 2, 1, "ab")}
    elif what == "order":
        p = {"a": H.str("value", 1), "b": H.str("value", 1)}
        q = {"b": H.str("value", 1), "a": H.str("value", 1)}
        if H.bool("missing"):
            del q["b"]
    elif what == "numbers":
        p, q = {"k": H.pick("number", NUMBERS)}, {"k": H.pick("number", NUMBERS)}
        if H.bool("within"):
            p, q = {"k": [p]}, {"k": [q]}
    elif what == "nested":
        p = {"k": [{"a": H.str("value", 1), "b": H.str("value", 1)}]}
        q = {"k": [{"b": H.str("value", 1), "a": H.str("value", 1)}]}
    elif what == "lists":
        p = {"k": [H.str("value", 1) for _ in range(H.pick("items", [1, 2]))]}
        q = {"k": [H.str("value", 1) for _ in range(H.pick("items", [1, 2]))]}
    a, b = M.ExtractorConfiguration(v, p), M.ExtractorConfiguration(w, q)
    same = v == w and p == q
    H.check((a == b) == same, "equal exactly if version and parameters are")
    H.check((a != b) == (not same), "different exactly if version or parameters are")
    if same:
        H.reach("same")
        H.check(hash(a) == hash(b), "equal configurations have the same hash")
    d = {a: 1}
    H.check((b in d) == same, "usable as a key")
    H.check(len({a, b}) == (1 if same else 2), "usable in sets")


def instances(H):
    """Instances are equal exactly if all their parts are."""
    M = H.M
    c = M.ExtractorConfiguration("1", {})
    base = dict(time_stamp=1, author_name="a", author_email="b", configuration=c, metadata_content={"k": []})
    field = H.pick("field", ["none", "time_stamp", "author_name", "author_email", "configuration", "metadata_content"])
    s = H.str("text", 1)
    other = dict(base)
    want = True
    if field == "configuration":
        other[field] = M.ExtractorConfiguration(s, {})
        want = s == "1"
    elif field == "metadata_content":
        base[field] = {"k": ["a"]}
        other[field] = {"k": [s]}
        want = s == "a"
    elif field == "time_stamp":
        other[field] = H.pick("time", [0, 1, 1.5])
        want = other[field] == 1
    elif field != "none":
        other[field] = s
        want = s == base[field]
    H.check((M.MetadataInstance(**base) == M.MetadataInstance(**other)) == want, "instance equality", field)
