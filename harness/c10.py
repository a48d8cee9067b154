"""Copies are complete, live in their destination only, and are independent of the original."""
from pathlib import Path

from harness.c09 import KINDS, change, load, make, spots, state
from harness.util import file_items, meta, record, uuid, version_state

ALL = KINDS + ["MTreeNode"]


def _make(H, kind):
    if kind != "MTreeNode":
        return make(H, kind)
    return make(H, "FileTree").mtree


def _state(H, kind, x):
    if kind == "MTreeNode":
        return state(H, "FileTree", H.M.FileTree(x))
    return state(H, kind, x)


def _load(H, kind, realm, ref):
    if kind == "MTreeNode":
        return H.M.MTreeNode(H.M.Metadata, realm, H.M.Reference("MTreeNode", ref.location))
    return load(H, kind, realm, ref)


def _spots(kind):
    return spots("FileTree" if kind == "MTreeNode" else kind)


def _change(H, kind, x, spot):
    if kind == "MTreeNode":
        change(H, "FileTree", H.M.FileTree(x), spot)
    else:
        change(H, kind, x, spot)


def copies(H):
    """Copies of every kind of object from every state, into the same or another store, then a change of one side."""
    kind = H.pick("kind", ALL)
    a = H.repo()
    b = a if H.bool("same place") else H.repo()
    how = H.pick("how", ["new", "written", "purged", "loaded"])
    x = _make(H, kind)
    if how != "new":
        ref = x.write_out(a)
        if how == "purged":
            x.purge()
        elif how == "loaded":
            H.restart()
            x = _load(H, kind, a, ref)
    changed = H.bool("changed")
    if changed:
        spot = H.pick("spot", _spots(kind))
        x.ensure_mapped()
        _change(H, kind, x, spot)
    else:
        look = H.bool("in memory before")
        if look:
            _state(H, kind, x)
    want = None
    if changed or look:
        want = _state(H, kind, x)
    unsaved = changed or how == "new"
    y = x.deepcopy(new_destination=b)
    H.check(type(y) is type(x), "kind of the copy", kind)
    H.check(y is not x, "a copy", kind)
    if unsaved:
        H.check(isinstance(H.raises(x.purge), ValueError), "the original is as unsaved as before", kind)
    if want is None:
        want = _state(H, kind, x)
    H.check(_state(H, kind, y) == want, "content of the copy", kind)
    H.check(_state(H, kind, x) == want, "content of the original", kind)
    ref = y.reference
    H.check(ref is not None and not ref.is_none_reference(), "the copy is stored", kind)
    # a change on one side is not seen on the other
    side = H.pick("side", ["copy", "original"])
    p, q = (y, x) if side == "copy" else (x, y)
    p.ensure_mapped()
    _change(H, kind, p, _spots(kind)[-1] if not changed or spot != _spots(kind)[-1] else _spots(kind)[0])
    H.check(_state(H, kind, p) != want or changed, "the change is there", f"{kind} {side}")
    H.check(_state(H, kind, q) == want, "the other side is unchanged", f"{kind} {side}")
    # the copy can be used without the original's place
    H.restart()
    z = _load(H, kind, b, ref)
    H.check(_state(H, kind, z) == want, "stored copy", kind)
    H.reach(kind)
    H.observe([kind, how])


def records(H):
    """Records with every combination of absent parts, alone or as elements of lists and trees."""
    M, P = H.M, H.M.MetadataPath
    a = H.repo()
    b = a if H.bool("same place") else H.repo()
    ident = uuid(1) if H.bool("identifier") else None
    version = H.pick("version", [None, "", "v"])
    level = H.pick("level", ["none", "empty", "run"])
    files = H.pick("files", ["none", "empty", "one"])
    m = None if level == "none" else M.Metadata() if level == "empty" else meta(H, "l")
    ft = None
    if files != "none":
        ft = M.FileTree()
        if files == "one":
            ft.add_metadata(P("d/f"), meta(H, "f"))
    r = M.MetadataRootRecord(ident, version, m, ft)
    label = f"{level} {files}"

    def state_of(x):
        dm, t = x.get_dataset_level_metadata(), x.get_file_tree()
        return (None if x.dataset_identifier is None else str(x.dataset_identifier), x.dataset_version,
                None if dm is None else [i for i in dm.extractors],
                # an empty file tree may be stored as none
                [] if t is None else sorted(str(p) for p, _ in t.get_paths_recursive()))
    want = (None if ident is None else str(ident), version,
            None if m is None else ["ex"] if level == "run" else [],
            ["d/f"] if files == "one" else [])
    where = H.pick("where", ["record", "list", "tree"])
    if where == "record":
        x = r
        get = lambda y: y
    elif where == "list":
        x = M.VersionList()
        x.set_versioned_element("1", "0", P("p"), r)
        get = lambda y: y.get_versioned_element("1", H.M.MetadataPath("p"))[2]
    else:
        x = M.DatasetTree()
        x.add_dataset(P("s"), r)
        get = lambda y: y.get_metadata_root_record(H.M.MetadataPath("s"))
    if where == "record" and H.bool("stored"):
        x.write_out(a)
        x.purge()
        x.read_in()
    y = x.deepcopy(new_destination=b)
    H.check(state_of(get(y)) == want, "content of the copy", label)
    H.check(state_of(get(x)) == want, "content of the original", label)
    ref = y.reference
    H.restart()
    M = H.M
    if where == "record":
        z = M.MetadataRootRecord(None, None, None, None, b, M.Reference("MetadataRootRecord", ref.location))
        z.read_in()
    elif where == "list":
        z = M.VersionList(None, b, M.Reference("VersionList", ref.location))
    else:
        z = M.DatasetTree(None, b, M.Reference("MTreeNode", ref.location))
    H.check(state_of(get(z)) == want, "stored copy", label)


def prefixes(H):
    """Copies of version lists below another prefix path."""
    P = H.M.MetadataPath
    tree = H.bool("tree version list")
    name = "TreeVersionList" if tree else "VersionList"
    vl = getattr(H.M, name)()
    a, b = H.repo(), H.repo()
    entries = [("1", ""), ("1", "p"), ("2", "p/q")][:H.int("entries", 0, 3)]
    for i, (v, p) in enumerate(entries):
        if tree:
            el = H.M.DatasetTree()
            el.add_dataset(P("s"), record(H, i, files=("f",)))
        else:
            el = record(H, i, files=("f",))
        vl.set_versioned_element(v, str(i), P(p), el)
    if H.bool("stored"):
        vl.write_out(a)
        vl.purge()
    before = version_state(vl)
    given = H.bool("prefix given")
    prefix = H.str("prefix", H.bound("len", 2), alpha="path") if given else ""
    kw = {"path_prefix": P(prefix)} if given else {}
    y = vl.deepcopy(new_destination=b, **kw)
    want = sorted((v, str(P(prefix) / P(p)), ts, str(P(prefix) / P(q)), el)
                  for v, p, ts, q, el in before)
    for where in ("memory", "storage"):
        got = version_state(y)
        H.check(len(got) == len(want), "number of copied entries", where)
        for e in want:
            H.check(len([1 for g in got if g == e]) == 1, "entry below the prefix", where)
        ref = y.reference
        if where == "memory":
            H.check(version_state(vl) == before, "the original keeps its prefix paths")
            H.restart()
            P = H.M.MetadataPath
            y = getattr(H.M, name)(None, b, H.M.Reference(name, ref.location))
    H.observe([len(want)])


def collectable(H):
    """Copied top-level objects stay complete when the destination is garbage-collected."""
    a, b = H.repo(), H.repo()
    kind = H.pick("kind", ["TreeVersionList", "UUIDSet"])
    x = make(H, kind)
    if H.bool("stored"):
        x.write_out(a)
        if H.bool("purged"):
            x.purge()
        H.M.flush_object_references(Path(a))
    want = state(H, kind, x)
    x.deepcopy(new_destination=b)
    H.M.flush_object_references(Path(b))
    H.restart()
    H.prune(b)
    H.check(H.refs_closed(b), "everything is there", kind)
    top = H.M.get_top_level_metadata_objects("git", b)
    H.check(state(H, kind, top[0 if kind == "TreeVersionList" else 1]) == want, "copied content", kind)
