"""A dataset's record survives storage with identifier, version, metadata and files."""
from uuid import UUID

from harness.util import meta, mrr_state, run, tags, uuid


def _files(H, kind):
    if kind == "none":
        return None
    ft = H.M.FileTree()
    for p in {"empty": (), "one": ("a",), "deep": ("a", "d/e/b", "d/c")}[kind]:
        ft.add_metadata(H.M.MetadataPath(p), meta(H, "f:" + p))
    return ft


def _level(H, kind):
    if kind == "none":
        return None
    m = H.M.Metadata()
    if kind == "runs":
        run(H, m, "d1")
        run(H, m, "d2", version="2")
        run(H, m, "d3", extractor="other")
    return m


def _want(identifier, version, level, files):
    return (None if identifier is None else str(identifier), version,
            {"none": None, "empty": [], "runs": [("ex", "1", "d1"), ("ex", "2", "d2"),
                                                 ("other", "1", "d3")]}[level],
            sorted((p, [("ex", "1", "f:" + p)]) for p in
                   {"none": (), "empty": (), "one": ("a",), "deep": ("a", "d/e/b", "d/c")}[files]))


def _make(H):
    identifier = H.pick("identifier", [None, uuid(1), "any"])
    if identifier == "any":
        identifier = UUID(H.str("digits", 2, 2, ((48, 57), (97, 102)))
                          + "bcdef0-0000-4000-8000-0123456789ab")
    version = None if H.bool("no version") else H.str("version", H.bound("len", 2))
    level = H.pick("level", ["none", "empty", "runs"])
    files = H.pick("files", ["none", "empty", "one", "deep"])
    return (H.M.MetadataRootRecord(identifier, version, _level(H, level), _files(H, files)),
            identifier, version, level, files)


def _via(H, r, realm, how):
    """r after storing and loading it"""
    M = H.M
    if how == "record":
        ref = r.write_out(realm)
        H.check(ref.class_name == "MetadataRootRecord", "class of the reference")
        H.restart()
        return H.M.MetadataRootRecord.get_empty_instance(
            realm, H.M.Reference("MetadataRootRecord", ref.location))
    if how == "purge":
        r.write_out(realm)
        r.purge()
        return r
    if how == "tree":
        t = M.DatasetTree()
        t.add_dataset(M.MetadataPath("sub/ds"), r)
        ref = t.write_out(realm)
        H.restart()
        t = H.M.DatasetTree(None, realm, H.M.Reference("MTreeNode", ref.location))
        return t.get_metadata_root_record(H.M.MetadataPath("sub/ds"))
    vl = M.VersionList()
    vl.set_versioned_element("1", "0", M.MetadataPath("p"), r)
    us = M.UUIDSet({uuid(9): vl})
    us.write_out(realm)
    H.restart()
    _, us = H.M.get_top_level_metadata_objects("git", realm)
    return us.get_version_list(uuid(9)).get_versioned_element("1", H.M.MetadataPath("p"))[2]


def round_trip(H):
    """Records of every shape (each part absent, empty or filled), stored alone, unloaded, in a tree or in a list."""
    r, identifier, version, level, files = _make(H)
    how = H.pick("how", ["record", "purge", "tree", "list"])
    want = _want(identifier, version, level, files)
    H.check(mrr_state(r) == want, "before storing", how)
    realm = H.repo()
    r = _via(H, r, realm, how)
    got = mrr_state(r)
    H.check(got[0] == want[0], "identifier", how)
    H.check(got[1] == want[1], "version", how)
    H.check(got[2] == want[2], "dataset-level metadata", how)
    H.check(got[3] == want[3], "files", how)
    if identifier is not None:
        H.check(r.dataset_identifier == identifier, "identifier is an identifier")
    H.observe(list(got[:2]))


def replace_parts(H):
    """Parts replaced before or after storing; each is stored on its own afterwards."""
    realm = H.repo()
    start = H.pick("start", ["runs/one", "none/none", "empty/empty"])
    l0, f0 = start.split("/")
    r = H.M.MetadataRootRecord(uuid(1), "v", _level(H, l0), _files(H, f0))
    state = H.pick("state", ["new", "written", "purged", "loaded"])
    if state != "new":
        ref = r.write_out(realm)
        if state == "purged":
            r.purge()
        if state == "loaded":
            H.restart()
            r = H.M.MetadataRootRecord.get_empty_instance(
                realm, H.M.Reference("MetadataRootRecord", ref.location))
    level, files = l0, f0
    for i in range(H.bound("changes", 2)):
        what = H.pick("change", ["nothing", "level", "files", "files property", "level in place",
                                 "files in place"])
        if what == "level":
            level = H.pick("new level", ["none", "empty", "runs"])
            r.set_dataset_level_metadata(_level(H, level))
        elif what == "files":
            files = H.pick("new files", ["none", "empty", "one", "deep"])
            r.set_file_tree(_files(H, files))
        elif what == "files property":
            files = "deep"
            r.file_tree = _files(H, "deep")
        elif what == "level in place":
            m = r.get_dataset_level_metadata()
            if m is None or level != "empty":
                return
            run(H, m, "d1")
            run(H, m, "d2", version="2")
            run(H, m, "d3", extractor="other")
            level = "runs"
        elif what == "files in place":
            t = r.get_file_tree()
            if t is None or files not in ("one", "deep"):
                return
            if files == "one":
                for p in ("d/e/b", "d/c"):
                    t.add_metadata(H.M.MetadataPath(p), meta(H, "f:" + p))
                files = "deep"
            else:
                t.mtree.remove_child("d")
                files = "one"
        if what != "nothing" and H.bool("write"):
            r.write_out(realm)
            if H.bool("purge"):
                r.purge()
        H.reach(what)
    want = _want(uuid(1), "v", level, files)
    H.check(mrr_state(r) == want, "in memory", state)
    H.check((r.get_file_tree() is None) == (files == "none") or files in ("none", "empty"),
            "presence of the file tree")
    r = _via(H, r, realm, "record")
    H.check(mrr_state(r) == want, "stored", state)
