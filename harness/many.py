"""Large objects: many entries, deep paths, long texts.  The sizes are concrete, the content of one
entry (or the position of one character) is symbolic."""
from pathlib import Path

from harness.util import (REC, file_items, load_tree, meta, mrr_state, record, runs, tags, uuid, version_state)

NAME = ((32, 33), (35, 46), (48, 91), (93, 126))


def _n(H):
    return H.pick("size", H.bound("sizes", [130]))


def _at(H, n):
    return H.pick("position", ["first", "middle", "last"])


def _pos(where, n):
    return {"first": 0, "middle": n // 2, "last": n - 1}[where]


def files(H):
    """A file tree with many entries, in one directory or in many, one of them with any content; then a
    change of one entry and an addition, in another process."""
    realm = H.repo()
    P = lambda x: H.M.MetadataPath(x)
    n = _n(H)
    k = _pos(_at(H, n), n)
    wide = H.bool("one directory")
    path = (lambda i: f"d/{i:04d}") if wide else (lambda i: f"{i % 12}/{i // 12}/f")
    t = H.str("tag", 1)
    ft = H.M.FileTree()
    for i in range(n):
        ft.add_metadata(P(path(i)), meta(H, t if i == k else str(i)))
    ref = ft.write_out(realm)
    H.restart()
    ft = load_tree(H, "FileTree", realm, ref)
    got = file_items(ft)
    H.check(len(got) == n, "number of files")
    for i in range(n):
        H.check(got[path(i)] == [("ex", "1", t if i == k else str(i))], "content of each file")
    H.restart()
    ft = load_tree(H, "FileTree", realm, ref)
    ft.add_extractor_run(P(path(n - 1 - k)), 2.5, "ex", "n", "m", H.M.ExtractorConfiguration("1", {"p": "x"}),
                         {"tag": "changed"})
    ft.add_metadata(P("new/" + path(k)), meta(H, "new"))
    ref = ft.write_out(realm)
    H.restart()
    got = file_items(load_tree(H, "FileTree", realm, ref))
    H.check(len(got) == n + 1, "number of files after a change")
    for i in range(n):
        want = "changed" if i == n - 1 - k else t if i == k else str(i)
        H.check(got[path(i)] == [("ex", "1", want)], "content of each file after a change")
    H.check(got["new/" + path(k)] == [("ex", "1", "new")], "content of the new file")


def datasets(H):
    """A dataset tree with many datasets."""
    realm = H.repo()
    P = lambda x: H.M.MetadataPath(x)
    n = _n(H)
    k = _pos(_at(H, n), n)
    t = H.str("name", 1, alpha="path")
    dt = H.M.DatasetTree()
    for i in range(n):
        dt.add_dataset(P(f"{i % 10}/{i}" if i else ""), record(H, i, dataset_metadata=i == k, files=("f",) if i == k
                                                              else None))
    ref = dt.write_out(realm)
    H.restart()
    dt = load_tree(H, "DatasetTree", realm, ref)
    seen = {str(p): r for p, r in dt.dataset_paths}
    H.check(len(seen) == n, "number of datasets")
    for i in range(n):
        want = (str(uuid(i)), f"v{i}", [("ex", "1", f"d{i}")] if i == k else None,
                [("f", [("ex", "1", f"{i}:f")])] if i == k else [])
        H.check(mrr_state(seen[f"{i % 10}/{i}" if i else ""]) == want, "each dataset")
    H.check(P(f"{k % 10}/x" + t) not in dt, "nothing else is there")


def deep_paths(H):
    """Items at and around a deep path."""
    realm = H.repo()
    P = lambda x: H.M.MetadataPath(x)
    depth = H.pick("depth", [6, 12, 40])
    dataset = H.bool("dataset tree")
    base = [f"n{i}" if i % 3 else "a" for i in range(depth)]
    t = H.str("name", 1, alpha="path")
    H.assume(str(P("x/" + t)) == "x/" + t)
    tree = (H.M.DatasetTree if dataset else H.M.FileTree)()
    add = tree.add_dataset if dataset else tree.add_metadata
    item = (lambda n: record(H, n, dataset_metadata=False, files=None)) if dataset else (lambda n: meta(H, str(n)))
    get = lambda x, p: (x.get_metadata_root_record(P(p)).dataset_version if dataset else tags(x.get_metadata(P(p)))[0][2])
    v = "v" if dataset else ""
    k = _pos(_at(H, depth), depth)
    q = "/".join(base[:k] + ["x" + t])
    p = "/".join(base)
    add(P(p), item(1))
    add(P(q), item(2))
    ref = tree.write_out(realm)
    H.restart()
    tree = load_tree(H, "DatasetTree" if dataset else "FileTree", realm, ref)
    H.check(get(tree, p) == v + "1" and get(tree, q) == v + "2", "items of deep paths")
    add = tree.add_dataset if dataset else tree.add_metadata
    r = "/".join(base[:-1] + ["z"])
    add(P(r), item(3))
    ref = tree.write_out(realm)
    H.restart()
    tree = load_tree(H, "DatasetTree" if dataset else "FileTree", realm, ref)
    H.check(get(tree, p) == v + "1" and get(tree, q) == v + "2" and get(tree, r) == v + "3",
            "items of deep paths after an addition")
    listed = sorted(str(x) for x, _ in (tree.dataset_paths if dataset else tree.get_paths_recursive()))
    H.check(listed == sorted([p, q, r]), "nothing else is listed")


def versions(H):
    """A version list with many versions and prefixes."""
    realm = H.repo()
    P = lambda x: H.M.MetadataPath(x)
    n = _n(H)
    k = _pos(_at(H, n), n)
    tree = H.bool("dataset trees")
    t = H.str("version", 1)
    key = lambda i: ("x" + t if i == k else f"{i // 2}", "" if i % 2 == 0 else f"p/{i % 7}")

    def element(i):
        if not tree:
            return record(H, i, dataset_metadata=False, files=None)
        d = H.M.DatasetTree()
        d.add_dataset(P(""), record(H, i, dataset_metadata=False, files=None))
        return d
    vl = (H.M.TreeVersionList if tree else H.M.VersionList)()
    for i in range(n):
        vl.set_versioned_element(key(i)[0], f"{i}.5", P(key(i)[1]), element(i))
    name = "TreeVersionList" if tree else "VersionList"
    ref = vl.write_out(realm)
    H.restart()
    vl = getattr(H.M, name)(None, realm, H.M.Reference(name, ref.location))
    H.check(len(list(vl.versions_and_prefix_paths())) == n, "number of entries")
    for i in range(n):
        ts, p, el = vl.get_versioned_element(key(i)[0], P(key(i)[1]))
        H.check(ts == f"{i}.5" and str(p) == key(i)[1], "each entry")
        el.read_in()
        r = el.get_metadata_root_record(P("")) if tree else el
        H.check(r.dataset_version == f"v{i}", "each element")
    vl.set_versioned_element(key(k)[0], "changed", P(key(k)[1]), element(1000))
    ref = vl.write_out(realm)
    H.restart()
    vl = getattr(H.M, name)(None, realm, H.M.Reference(name, ref.location))
    H.check(len(list(vl.versions_and_prefix_paths())) == n, "number of entries after a replacement")
    for i in range(n):
        ts, p, el = vl.get_versioned_element(key(i)[0], P(key(i)[1]))
        H.check(ts == ("changed" if i == k else f"{i}.5"), "each entry after a replacement")


def identifiers(H):
    """A set of many datasets."""
    realm = H.repo()
    P = lambda x: H.M.MetadataPath(x)
    n = _n(H)
    k = _pos(_at(H, n), n)
    t = H.str("version", 1)

    def vl(i):
        x = H.M.VersionList()
        x.set_versioned_element(t if i == k else str(i), f"{i}", P(""), record(H, i, dataset_metadata=False, files=None))
        return x
    us = H.M.UUIDSet()
    for i in range(n):
        us.set_version_list(uuid(i), vl(i))
    us.write_out(realm)
    H.restart()
    us = H.M.UUIDSet(None, realm, H.M.Reference("UUIDSet", us.reference.location))
    H.check(sorted(str(u) for u in us.uuids()) == [str(uuid(i)) for i in range(n)], "all identifiers")
    for i in range(n):
        got = list(us.get_version_list(uuid(i)).versions_and_prefix_paths())
        H.check([(a, str(b)) for a, b in got] == [(t if i == k else str(i), "")], "each list")
    us.set_version_list(uuid(n), vl(n))
    ref = us.write_out(realm)
    H.restart()
    us = H.M.UUIDSet(None, realm, H.M.Reference("UUIDSet", ref.location))
    H.check(len(list(us.uuids())) == n + 1, "all identifiers after an addition")
    for i in range(n + 1):
        got = list(us.get_version_list(uuid(i)).versions_and_prefix_paths())
        H.check([(a, str(b)) for a, b in got] == [(t if i == k else str(i), "")], "each list after an addition")


def extractors(H):
    """Metadata with many extractors and many configurations."""
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    t = H.str("content", 1)
    many = H.bool("one extractor")
    m = H.M.Metadata()
    for i in range(n):
        m.add_extractor_run(float(i), "ex" if many else f"ex{i}", f"n{i}", "m",
                            H.M.ExtractorConfiguration(str(i) if i % 2 else "v", {"p": str(i // 2)}),
                            {"c": t if i == k else i})
    ref = m.write_out(realm)
    H.restart()
    m = H.M.Metadata(realm, H.M.Reference("Metadata", ref.location))
    got = runs(m.read_in())
    H.check(len(got) == (1 if many else n), "number of extractors")
    for i in range(n):
        rs = [r for r in got["ex" if many else f"ex{i}"] if r[2] == float(i)]
        H.check(len(rs) == 1, "each run is there once")
        H.check(rs[0] == (str(i) if i % 2 else "v", {"p": str(i // 2)}, float(i), f"n{i}", "m",
                          {"c": t if i == k else i}), "each run")


def long_texts(H):
    """Long texts and values with a symbolic character anywhere."""
    B = H.M.module("mapper.gitmapper.gitbackend.subprocess")
    T = H.M.module("text").Text
    realm = H.repo()
    n = H.pick("size", [70, 998, 4095, 65537])
    where = H.pick("position", ["start", "middle", "end"])
    c = H.str("character", 1)
    rest = "a" * (n - 1)
    text = c + rest if where == "start" else rest + c if where == "end" else rest[:n // 2] + c + rest[n // 2:]
    how = H.pick("how", ["text", "value", "object", "content", "bytes"])
    if how == "text":
        oid = B.git_save_str(realm, text)
        H.check(B.git_load_str(realm, oid) == text, "a long text")
    elif how == "value":
        oid = B.git_save_json(realm, {"k": [text, 1]})
        H.check(B.git_load_json(realm, oid) == {"k": [text, 1]}, "a long value")
    elif how == "object":
        ref = T(text).write_out(realm)
        H.restart()
        x = H.M.module("text").Text(None, realm, H.M.Reference("Text", ref.location))
        H.check(x.read_in().content == text, "a long text object")
    elif how == "content":
        ft = H.M.FileTree()
        ft.add_metadata(H.M.MetadataPath("f"), meta(H, text))
        ref = ft.write_out(realm)
        H.restart()
        ft = load_tree(H, "FileTree", realm, ref)
        H.check(tags(ft.get_metadata(H.M.MetadataPath("f")))[0][2] == text, "long content")
    else:
        G = H.M.module("mapper.gitmapper.gitblobcache")
        cache = G.GitBlobCache(realm, 2)
        oid = cache.cache_blob(realm, text)
        cache.cache_blob(realm, text.encode() + b"\xff")
        cache.flush()
        rc, out = H.git(realm, "cat-file", "blob", oid)
        H.check(rc == 0 and out == text.encode(), "a long blob")


def references(H):
    """Many references flushed at once, and many flushed one after the other."""
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    step = H.pick("flushed after", H.bound("groups", [1000, 50]))
    c = H.pick("digit", ["0", "8", "f"])
    names = []
    for i in range(n):
        x = f"{i * 2654435761 % 2 ** 32:08x}"
        names.append(((x[:3] + c + x[4:]) if i == k else x) + f"{i:032x}")
    for i, o in enumerate(names):
        H.M.add_blob_reference(o)
        if (i + 1) % step == 0:
            H.M.flush_object_references(Path(realm))
    H.M.flush_object_references(Path(realm))
    ref = "refs/datalad/object-references-2.0"
    rc, out = H.git(realm, "ls-tree", "-r", ref)
    H.check(rc == 0, "the reference store can be read")
    lines = out.decode().splitlines()
    H.check(len(lines) == n, "each is recorded once")
    got = {}
    for line in lines:
        fields, name = line.split("\t")
        got[name.replace("/", "")] = fields.split(" ")[1:]
    for o in names:
        H.check(got.get(o) == ["blob", o], "each is recorded")


def trees(H):
    """Large trees, written and read."""
    B = H.M.module("mapper.gitmapper.gitbackend.subprocess")
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    name = H.str("name", 1, alpha=NAME)
    blob = B.git_save_str(realm, "x")
    given = [("100644", "blob", blob, "~~" + name if i == k else f"{i}") for i in range(n)]
    oid = (B.git_save_tree if H.bool("tree") else B.git_save_tree_node)(realm, given)
    got = [l.split("\t") for l in B.git_read_tree_node(realm, oid)]
    H.check(len(got) == n, "number of entries")
    seen = [x[1] for x in got]
    for f, t, o, x in given:
        H.check(len([1 for s in seen if s == x]) == 1, "each entry")


def objects(H):
    """The names of many files at once."""
    B = H.M.module("mapper.gitmapper.gitbackend.subprocess")
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    t = H.str("text", 1)
    G = H.M.module("mapper.gitmapper.gitblobcache")
    cache = G.GitBlobCache(realm, H.pick("cache", [50, 64, 2000]))
    want = [(cache.cache_blob(realm, t if i == k else f"text {i}"), t if i == k else f"text {i}") for i in range(n)]
    cache.flush()
    for o, x in want:
        rc, out = H.git(realm, "cat-file", "blob", o)
        H.check(rc == 0 and out == x.encode(), "each blob is stored")


def _large(H, realm, n, k, t):
    """A store with n datasets in one tree, some with files."""
    from harness.top import add_run, nodes, save
    P = H.M.MetadataPath
    for i in range(n):
        if i == 0:
            tvl, us, r = nodes(H, realm, 1, "1")
        else:
            r = H.M.module("common").get_metadata_root_record_from_top_nodes(
                tvl, us, uuid(i + 1), "s", P(""), P(f"sub/{i}"), uuid(1), "1", True)
        add_run(H, r, None, t if i == k else f"d{i}")
        if i % 3 == 0:
            for j in range(4):
                add_run(H, r, f"f/{j}", f"{i} {j}")
    save(H, realm, tvl, us)


def store(H):
    """A large store, collected, changed at one spot, collected again; the last step may be a copy to
    another store."""
    from harness.top import add_run, save, states, sub_nodes
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    t = H.str("tag", 1)
    _large(H, realm, n, k, t)
    want = states(H, realm)
    H.check(len(want[1]) == n, "number of datasets")
    H.check(len(want[0][0][4][1]) == n, "number of datasets in the tree")
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there")
    H.check(states(H, realm) == want, "content after garbage collection")
    H.restart()
    i = (n - 1 - k) // 3 * 3 or 3        # one that has files
    tvl, us, r = sub_nodes(H, realm, i + 1, "s", f"sub/{i}", 1, "1")
    add_run(H, r, "f/new", "new")
    save(H, realm, tvl, us)
    H.restart()
    now = states(H, realm)
    strip = lambda s: [(u, [e[4] for e in vs]) for u, vs in s[1]]
    for (u, a), (v, b) in zip(strip(want), strip(now)):
        H.check(u == v, "the same datasets")
        if u != str(uuid(i + 1)):
            H.check(a == b, "other datasets are as before")
        else:
            H.check([f for f, g in b[0][1][3]] == [f for f, g in a[0][1][3]] + ["f/new"], "the new file")
            H.check(("f/new", [("ex", "1", "new")]) in b[0][1][3], "content of the new file")
    if H.bool("copied"):
        other = H.repo()
        for x in H.M.get_top_level_metadata_objects("git", realm):
            x.deepcopy(new_destination=other)
        H.M.flush_object_references(Path(other))
        realm = other
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there in the end")
    H.check(states(H, realm) == now, "content in the end")


def added_paths(H):
    """Many paths added to a large tree."""
    U = H.M.module("mapper.gitmapper.treeupdater")
    realm = H.repo()
    n = _n(H)
    k = _pos(_at(H, n), n)
    blobs = []
    for i in range(3):
        rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=b"%d" % i)
        blobs.append(out.decode().strip())
    rc, out = H.git(realm, "mktree", stdin="".join(
        f"100644 blob {blobs[0]}\tx{i}\n" for i in range(n)).encode())
    low = out.decode().strip()
    rc, out = H.git(realm, "mktree", stdin="".join(
        f"040000 tree {low}\td{i}\n" for i in range(20)).encode())
    entries = U._get_dir(Path(realm), out.decode().strip())
    name = H.str("name", 1, 1, "name")
    H.assume(name != "." and name != "..")
    infos = []
    for i in range(n):
        parts = [f"d{i % 25}", f"x{i}" if i % 2 else "~" + name + str(i) if i == k else f"y{i}"]
        infos.append(U.PathInfo(parts, blobs[1], U.EntryType.File))
    want = {(f"d{i}", f"x{j}"): blobs[0] for i in range(20) for j in range(n)}
    for p in infos:
        want[tuple(p.elements)] = blobs[1]
    result = U.add_paths(Path(realm), infos, entries)
    rc, out = H.git(realm, "ls-tree", "-r", "-z", result)
    H.check(rc == 0, "the result is a stored tree")
    got = [x.split(b"\t", 1) for x in out.split(b"\0")[:-1]]
    H.check(len(got) == len(want), "no entry is missing or added")
    plain = {}
    odd = []
    for f, m in got:
        if b"~" in m:
            odd.append((f, m))
        else:
            plain[m] = f
    for p, oid in want.items():
        if "~" in p[1]:
            H.check(odd == [(f"100644 blob {oid}".encode(), "/".join(p).encode())], "the odd entry")
        else:
            H.check(plain["/".join(p).encode()] == f"100644 blob {oid}".encode(), "the entry has the given object")
