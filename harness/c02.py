"""Stored trees reload with every path and name unchanged."""
from harness.util import REC, meta, load_tree, tag


def _load(H, cls, realm, ref):
    H.restart()
    return load_tree(H, cls, realm, ref)


def one_name(H):
    """One item with an arbitrary name: alone, below or above another name."""
    P = H.M.MetadataPath
    realm = H.repo()
    if H.bool("names are quoted sparingly"):
        H.configure(realm, "core.quotepath", "false")
    s = H.str("name", H.bound("len", 2), 1, alpha="name")
    H.assume(s != ".")
    where = H.pick("where", ["top", "below", "above", "beside"])
    t = H.M.FileTree()
    paths = {"top": [[s]], "below": [["d", s]], "above": [[s, "f"]], "beside": [[s], ["zz"]]}[where]
    if where == "beside":
        H.assume(s != "zz")
    for n, p in enumerate(paths):
        t.add_metadata(P("/".join(p)), meta(H, f"t{n}"))
    ref = t.write_out(realm)
    t = _load(H, "FileTree", realm, ref)
    P = H.M.MetadataPath
    listed = [list(p.parts) for p, _ in t.get_paths_recursive()]
    H.check(len(listed) == len(paths), "number of paths")
    for n, p in enumerate(paths):
        H.check(any(p == q for q in listed), "path is listed unchanged")
        m = t.get_metadata(P("/".join(p)))
        H.check(m is not None, "item is found under its path")
        H.check(tag(m) == f"t{n}", "item content")
        H.check(P("/".join(p)) in t, "membership")
    H.reach("done")
    H.observe_bag(listed)


WORDS = [".git", "..", "...", ".gitmodules", "-", "--", "HEAD", "100644 blob", "040000 tree", '""', '"a"',
         "\\t", "\\\\", "\\303", "*None*", "refs", "o:", "nul", "%2F", "~", "a\tb", "a\nb", "\u00fc", "u\u0308"]


def words(H):
    """Names that mean something to git, to the stored format or to its quoting; possibly with
    another character before or after."""
    P = H.M.MetadataPath
    realm = H.repo()
    w = H.pick("word", WORDS)
    side = H.pick("with", ["nothing", "before", "after"])
    c = "" if side == "nothing" else H.str("character", 1, 1, alpha="name")
    s = c + w if side == "before" else w + c
    dataset = H.bool("dataset tree")
    where = H.pick("where", ["top", "below", "above"])
    p = {"top": [s], "below": ["d", s], "above": [s, "f"]}[where]
    if dataset:
        H.assume(where != "top" or s != REC)
        t = H.M.DatasetTree()
        t.add_dataset(P("/".join(p)), H.M.MetadataRootRecord(None, "v", meta(H, "t"), None))
    else:
        t = H.M.FileTree()
        t.add_metadata(P("/".join(p)), meta(H, "t"))
    t = _load(H, "DatasetTree" if dataset else "FileTree", realm, t.write_out(realm))
    P = H.M.MetadataPath
    listed = [list(q.parts) for q, _ in (t.dataset_paths if dataset else t.get_paths_recursive())]
    H.check(listed == [p], "path is listed unchanged", w)
    if dataset:
        r = t.get_metadata_root_record(P("/".join(p)))
        H.check(r is not None and r.dataset_version == "v", "item is found under its path", w)
        m = r.get_dataset_level_metadata()
    else:
        m = t.get_metadata(P("/".join(p)))
    H.check(m is not None and tag(m) == "t", "item content", w)
    H.reach("done")


def two_names(H):
    """Two items with arbitrary names next to each other, one of them possibly a directory."""
    P = H.M.MetadataPath
    realm = H.repo()
    a = H.str("a", H.bound("len", 1), 1, alpha="name")
    b = H.str("b", H.bound("len", 1), 1, alpha="name")
    H.assume(a != "." and b != "." and a != b)
    isdir = H.bool("b is a directory")
    t = H.M.FileTree()
    pa, pb = [a], [b, "f"] if isdir else [b]
    t.add_metadata(P("/".join(pa)), meta(H, "ta"))
    t.add_metadata(P("/".join(pb)), meta(H, "tb"))
    t = _load(H, "FileTree", realm, t.write_out(realm))
    P = H.M.MetadataPath
    listed = [list(p.parts) for p, _ in t.get_paths_recursive()]
    H.check(len(listed) == 2, "number of paths")
    for p, x in ((pa, "ta"), (pb, "tb")):
        H.check(any(p == q for q in listed), "path is listed unchanged")
        m = t.get_metadata(P("/".join(p)))
        H.check(m is not None and tag(m) == x, "item is found under its path")
    H.observe_bag(listed)


def shapes(H):
    """Any shape of a tree of datasets or files, with deeper levels, and repeated saving."""
    P = H.M.MetadataPath
    realm = H.repo()
    dataset = H.bool("dataset tree")
    t = (H.M.DatasetTree if dataset else H.M.FileTree)()
    universe = ["", "a", "a/b", "a/b/c", "b", "b/a b", "x/y/z"] if dataset \
        else ["a", "b/c", "b/d/e", "b/d/f", "c d", "x/y/z/w"]
    chosen = [p for p in universe if H.bool("with " + p)]
    for p in chosen:
        if dataset:
            t.add_dataset(P(p), H.M.MetadataRootRecord(None, "v" + p, meta(H, "m" + p), None))
        else:
            t.add_metadata(P(p), meta(H, "m" + p))
    cut = H.pick("removed", [None, "b", "x/y"])
    if cut is not None and t.mtree.get_object_at_path(P(cut)) is not None:
        t.delete_subtree(P(cut)) if dataset else t.mtree.remove_child_at(P(cut))
        chosen = [p for p in chosen if p != cut and not p.startswith(cut + "/")]
        H.reach("removed a sub-tree")
    ref = t.write_out(realm)
    H.check(ref.is_none_reference() == (not chosen), "an object is stored exactly if there are items")
    cls = "DatasetTree" if dataset else "FileTree"
    t = _load(H, cls, realm, ref)
    P = H.M.MetadataPath
    listed = sorted(str(p) for p, _ in (t.dataset_paths if dataset else t.get_paths_recursive()))
    H.check(listed == sorted(chosen), "paths", f"{listed} {chosen}")
    for p in universe:
        if dataset:
            r = t.get_metadata_root_record(P(p))
            H.check((r is not None) == (p in chosen), "presence", p)
            if r is not None:
                H.check(r.dataset_version == "v" + p and tag(r.get_dataset_level_metadata()) == "m" + p,
                        "content", p)
        elif p in chosen:
            H.check(tag(t.get_metadata(P(p))) == "m" + p, "content", p)
        else:
            H.check(t.get_metadata(P(p)) is None, "presence", p)
    again = t.write_out(realm)
    H.check(again.location == ref.location, "saving a loaded tree does not change it")
    H.observe_bag(listed)
