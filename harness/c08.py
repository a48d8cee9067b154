"""Nothing that was added or changed is lost, whatever is stored, unloaded and loaded in between."""
from harness.c09 import load, make, state
from harness.util import record, runs, meta, tag, uuid


def _items(H, dt):
    """{item: tag} of a dataset tree: ("", path) files, ("", None) dataset-level metadata"""
    out = {}
    for p, _ in dt.dataset_paths:
        for f, t in _record_items(dt.get_metadata_root_record(p)).items():
            out[(str(p), f)] = t
    return out


def _run(H, m, i, tags, path=None):
    """Add a run - of the configuration that is there, or of another one - to m (or to the file `path`
    of m); the runs that are there then."""
    e, v = "ex", f"r{i}"
    if i == 0 or H.bound("rich"):
        v = H.str("version", 1, 1, "hex")
    args = (1.0, e, "n", "m", H.M.ExtractorConfiguration(v, {"p": "x"}), {"tag": f"new{i}"})
    if path is None:
        m.add_extractor_run(*args)
    else:
        m.add_extractor_run(H.M.MetadataPath(path), *args)
    return [x for x in tags if not (x[0] == e and x[1] == v)] + [(e, v, f"new{i}")]


def _tags(m):
    return None if m is None else [(e, x[0], x[5]["tag"]) for e, xs in runs(m).items() for x in xs]


def _same(a, b):
    """Whether {item: runs} are the same, each with its runs in any order"""
    if sorted(a, key=str) != sorted(b, key=str):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None or len(x) != len(y):
            return False
        for r in x:
            if not any(r == s for s in y):
                return False
    return True


def _record_items(r):
    out = {None: _tags(r.get_dataset_level_metadata())}
    ft = r.get_file_tree()
    for p, _ in ([] if ft is None else ft.get_paths_recursive()):
        out[str(p)] = _tags(ft.get_metadata(p))
    return out


def trees(H):
    """Work on the dataset tree of one version."""
    P = H.M.MetadataPath
    realm = H.repo()
    model = {("", None): [("ex", "1", "d1")], ("", "a"): [("ex", "1", "1:a")],
             ("", "d/b"): [("ex", "1", "1:d/b")], ("s", None): [("ex", "1", "d2")],
             ("s", "a"): [("ex", "1", "2:a")]}
    tvl = H.M.TreeVersionList()
    dt = H.M.DatasetTree()
    dt.add_dataset(P(""), record(H, 1, files=("a", "d/b")))
    dt.add_dataset(P("s"), record(H, 2, files=("a",)))
    tvl.set_dataset_tree("1", "0", P(""), dt)
    if H.bool("stored"):
        tvl.write_out(realm)
        if H.bool("reloaded"):
            H.restart()
            P = H.M.MetadataPath
            tvl, _ = H.M.get_top_level_metadata_objects("git", realm)
    small = not H.bound("rich")
    ops = ["change file", "change deep file", "new file", "change level", "new dataset", "remove file",
           "write file", "write files", "write record", "write tree", "write all",
           "purge file", "purge files", "purge record", "purge tree", "purge all", "unget file", "unget tree"]
    for i in range(H.bound("ops", 3)):
        # quick: a change first, then something that stores or unloads, then anything
        op = H.pick("op", ops if not small else [ops[:6], ops[6:], ops][min(i, 2)])
        ds = "" if small else H.pick("dataset", ["", "s"])
        tree = lambda: tvl.get_dataset_tree("1", P(""))[2]
        rec = lambda: tree().get_metadata_root_record(P(ds))
        files = lambda: rec().get_file_tree()
        name = "d/b" if small else "a"
        if op == "change file":
            there = (ds, "a") in model
            model[(ds, "a")] = _run(H, files().get_metadata(P("a")) if there else files(), i,
                                    model.get((ds, "a"), []), None if there else "a")
        elif op == "change deep file":
            model[(ds, "d/b")] = _run(H, files(), i, model.get((ds, "d/b"), []), "d/b")
        elif op == "new file":
            files().add_metadata(P(f"d/n{i}"), meta(H, f"n{i}"))
            model[(ds, f"d/n{i}")] = [("ex", "1", f"n{i}")]
        elif op == "change level":
            model[(ds, None)] = _run(H, rec().get_dataset_level_metadata(), i, model[(ds, None)])
        elif op == "new dataset":
            tree().add_dataset(P(f"t{i}"), record(H, 7, files=("x",)))
            model[(f"t{i}", None)] = [("ex", "1", "d7")]
            model[(f"t{i}", "x")] = [("ex", "1", "7:x")]
        elif op == "remove file":
            if (ds, "a") not in model:
                return
            files().mtree.remove_child("a")
            del model[(ds, "a")]
        elif op == "write file":
            if (ds, name) not in model:
                return
            files().get_metadata(P(name)).write_out(realm)
        elif op == "write files":
            files().write_out(realm)
        elif op == "write record":
            rec().write_out(realm)
        elif op == "write tree":
            tree().write_out(realm)
        elif op == "write all":
            tvl.write_out(realm)
        elif op == "unget file":
            if (ds, name) not in model:
                return
            f = files()
            f.unget_metadata(f.get_metadata(P(name)), realm)
        elif op == "unget tree":
            tree()
            tvl.unget_dataset_tree("1", P(""), realm)
        else:
            if op == "purge file":
                if (ds, name) not in model:
                    return
                x = files().get_metadata(P(name))
            else:
                x = {"purge files": files, "purge record": rec, "purge tree": tree,
                     "purge all": lambda: tvl}[op]()
            e = H.raises(x.purge)
            H.check(e is None or isinstance(e, ValueError), "purging ends well or is refused",
                    str(type(e)))
            H.reach("purged" if e is None else "refused")
    H.check(_same(_items(H, tvl.get_dataset_tree("1", P(""))[2]), model), "nothing is lost in memory")
    tvl.write_out(realm)
    H.restart()
    tvl, _ = H.M.get_top_level_metadata_objects("git", realm)
    H.check(_same(_items(H, tvl.get_dataset_tree("1", H.M.MetadataPath(""))[2]), model),
            "nothing is lost in storage")


def lists(H):
    """Work on the set of datasets and their version lists."""
    P = H.M.MetadataPath
    realm = H.repo()
    us = H.M.UUIDSet()
    vl = H.M.VersionList()
    vl.set_versioned_element("1", "0", P(""), record(H, 1, files=("a",)))
    us.set_version_list(uuid(1), vl)
    # {(dataset, version): {item: tags}}
    model = {(1, "1"): {None: [("ex", "1", "d1")], "a": [("ex", "1", "1:a")]}}
    if H.bool("stored"):
        us.write_out(realm)
        if H.bool("reloaded"):
            H.restart()
            P = H.M.MetadataPath
            _, us = H.M.get_top_level_metadata_objects("git", realm)
    ops = ["change file", "change level", "new version", "new dataset", "write record", "write list",
           "write all", "purge record", "purge list", "purge all", "unget record", "unget list"]
    for i in range(H.bound("ops", 3)):
        op = H.pick("op", ops)
        lst = lambda: us.get_version_list(uuid(1))
        rec = lambda: lst().get_versioned_element("1", P(""))[2]
        if op == "change file":
            model[(1, "1")]["a"] = _run(H, rec().get_file_tree().get_metadata(P("a")), i, model[(1, "1")]["a"])
        elif op == "change level":
            model[(1, "1")][None] = _run(H, rec().get_dataset_level_metadata(), i, model[(1, "1")][None])
        elif op == "new version":
            lst().set_versioned_element(f"n{i}", "1", P(""), record(H, 5, files=("x",)))
            model[(1, f"n{i}")] = {None: [("ex", "1", "d5")], "x": [("ex", "1", "5:x")]}
        elif op == "new dataset":
            v = H.M.VersionList()
            v.set_versioned_element("1", "1", P(""), record(H, 6, files=("x",)))
            us.set_version_list(uuid(10 + i), v)
            model[(10 + i, "1")] = {None: [("ex", "1", "d6")], "x": [("ex", "1", "6:x")]}
        elif op == "write record":
            rec().write_out(realm)
        elif op == "write list":
            lst().write_out(realm)
        elif op == "write all":
            us.write_out(realm)
        elif op == "unget record":
            rec()
            lst().unget_versioned_element("1", P(""), realm)
        elif op == "unget list":
            lst().write_out(realm)
            us.unget_version_list(uuid(1))
        else:
            x = {"purge record": rec, "purge list": lst, "purge all": lambda: us}[op]()
            e = H.raises(x.purge)
            H.check(e is None or isinstance(e, ValueError), "purging ends well or is refused",
                    str(type(e)))
            H.reach("purged" if e is None else "refused")
    H.check(_same(_all(H, us), _flat(model)), "nothing is lost in memory")
    us.write_out(realm)
    H.restart()
    _, us = H.M.get_top_level_metadata_objects("git", realm)
    H.check(_same(_all(H, us), _flat(model)), "nothing is lost in storage")


def _flat(model):
    return {(d, v, k): t for (d, v), m in model.items() for k, t in m.items()}


def _all(H, us):
    out = {}
    for u in us.uuids():
        vl = us.get_version_list(u)
        for v, p in list(vl.versions_and_prefix_paths()):
            for k, t in _record_items(vl.get_versioned_element(v, p)[2]).items():
                out[(u.int, v, k)] = t
    return out


def two_realms(H):
    """The same object and parts of it stored in two places, changed and unloaded in between."""
    P = H.M.MetadataPath
    a, b = H.repo(), H.repo()
    kind = H.pick("kind", ["files", "record", "tree", "list", "set"])
    ft = H.M.FileTree()
    ft.add_metadata(P("d/f"), meta(H, "0"))
    x = ft
    if kind != "files":
        x = r = H.M.MetadataRootRecord(uuid(1), "v", meta(H, "l"), ft)
    if kind in ("tree", "list"):
        x = H.M.DatasetTree()
        x.add_dataset(P("s"), r)
    if kind in ("list", "set"):
        t, x = x, (H.M.TreeVersionList if kind == "list" else H.M.VersionList)()
        x.set_versioned_element("1", "0", P(""), t)
    if kind == "set":
        x = H.M.UUIDSet({uuid(1): x})

    def parts(x):
        """The objects on the way to the file, outermost first"""
        out = [x]
        if kind == "set":
            x = x.get_version_list(uuid(1))
            out.append(x)
        if kind in ("list", "set"):
            x = x.get_versioned_element("1", P(""))[2]
            out.append(x)
        if kind in ("list", "tree"):
            x = x.get_metadata_root_record(P("s"))
            out.append(x)
        if kind != "files":
            x = x.get_file_tree()
            out.append(x)
        out.append(x.get_metadata(P("d/f")))
        return out
    want, saved = [("ex", "1", "0")], {}
    for i in range(H.bound("steps", 4)):
        ops = ["save", "save part", "change", "unload"]
        # what was never saved can only be saved or changed
        op = H.pick("op", ops if saved else ops[:3])
        if op == "change":
            want = _run(H, parts(x)[-1], i + 1, want)
            continue
        y = x
        if op == "save part":
            y = parts(x)[-1 if H.bool("file") or kind == "files" else -2]
        if op == "unload":
            e = H.raises(y.purge)
            H.check(e is None or isinstance(e, ValueError), "unloading ends well or is refused", kind)
            continue
        where = H.pick("where", [0, 1])
        out = []
        e = H.raises(lambda: out.append(y.write_out((a, b)[where])))
        if e is not None:
            # parts that are not in memory cannot be stored in another place
            H.check(isinstance(e, RuntimeError) and len(saved) > 0, "saving succeeds", f"{kind} {op} {type(e)}")
        elif op == "save":
            saved[where] = (out[0], want)
    H.check(_same({0: _tags(parts(x)[-1])}, {0: want}), "nothing is lost in memory", kind)
    last = 0
    for where in (0, 1):
        out = []
        e = H.raises(lambda: out.append(x.write_out((a, b)[where])))
        if e is None:
            last += 1
            saved[where] = (out[0], want)
    H.check(last > 0, "saved somewhere", kind)
    H.restart()
    P = H.M.MetadataPath
    whole = {"files": "FileTree", "record": "MetadataRootRecord", "tree": "DatasetTree", "list": "TreeVersionList",
             "set": "UUIDSet"}[kind]
    for where, (ref, there) in saved.items():
        ps = parts(load(H, whole, (a, b)[where], ref))
        if kind != "files":
            H.check(tag(ps[-3].get_dataset_level_metadata()) == "l", "dataset-level metadata in both places")
        H.check(_same({0: _tags(ps[-1])}, {0: there}), "file metadata in both places", kind)


def _container(H, kind):
    """(what c09 calls it, the part it takes)"""
    return {"file": ("FileTree", "Metadata"), "files": ("MetadataRootRecord", "FileTree"),
            "level": ("MetadataRootRecord", "Metadata"), "dataset": ("DatasetTree", "MetadataRootRecord"),
            "datasets": ("DatasetTree", "DatasetTree"), "record": ("VersionList", "MetadataRootRecord"),
            "tree": ("TreeVersionList", "DatasetTree"), "list": ("UUIDSet", "VersionList")}[kind]


def _part(H, kind):
    P = H.M.MetadataPath
    if kind == "Metadata":
        return meta(H, "part")
    if kind == "FileTree":
        x = H.M.FileTree()
        x.add_metadata(P("d/n"), meta(H, "part"))
        return x
    r = record(H, 5, files=("x",))
    if kind == "MetadataRootRecord":
        return r
    if kind == "DatasetTree":
        x = H.M.DatasetTree()
        x.add_dataset(P("u"), r)
        return x
    x = H.M.VersionList()
    x.set_versioned_element("5", "5", P("q"), r)
    return x


def _put(H, kind, x, part, replace):
    P = H.M.MetadataPath
    if kind == "file":
        x.add_metadata(P("d/b" if replace else "d/n"), part)
    elif kind == "files":
        x.set_file_tree(part)
    elif kind == "level":
        x.set_dataset_level_metadata(part)
    elif kind == "dataset":
        x.add_dataset(P("s/t" if replace else "s"), part)
    elif kind == "datasets":
        x.add_subtree(part, P("n"))
    elif kind == "record":
        x.set_versioned_element("1" if replace else "2", "7", P(""), part)
    elif kind == "tree":
        x.set_dataset_tree("1" if replace else "2", "7", P(""), part)
    else:
        x.set_version_list(uuid(1 if replace else 3), part)


def put_together(H):
    """A part - new, stored here or elsewhere, in memory or not - is put into an object - new or stored,
    in memory or not: it is there, and all the rest still is, too."""
    kind = H.pick("kind", ["file", "files", "level", "dataset", "datasets", "record", "tree", "list"])
    whole, part = _container(H, kind)
    a, b = H.repo(), H.repo()
    replace = H.bool("replace")
    if replace and kind in ("file", "dataset", "datasets"):
        # these do not replace (C01)
        return
    ref = x = make(H, whole)
    y = _part(H, part)
    place = H.pick("part is", ["new", "stored", "purged", "loaded", "elsewhere", "purged elsewhere",
                               "loaded from elsewhere"])
    where = b if "elsewhere" in place else a
    if place != "new":
        yref = y.write_out(where)
        if "purged" in place:
            y.purge()
    how = H.pick("object is", ["new", "stored", "purged", "loaded"])
    if how != "new":
        ref = x.write_out(a)
        if how == "purged":
            x.purge()
        elif how == "loaded":
            # what is in memory only stays so
            x = load(H, whole, a, ref)
    if "loaded" in place:
        y = load(H, part, where, yref)
    _put(H, kind, x, y, replace)
    fresh = make(H, whole)
    _put(H, kind, fresh, _part(H, part), replace)
    want = state(H, whole, fresh)
    if H.bool("look"):
        H.check(state(H, whole, x) == want, "all is there in memory", kind)
    out = []
    e = H.raises(lambda: out.append(x.write_out(a)))
    if e is not None:
        # what is not in memory, and stored elsewhere, is not fetched from there
        H.check(isinstance(e, RuntimeError) and place in ("purged elsewhere", "loaded from elsewhere"),
                "storing succeeds", f"{kind} {place} {type(e)}")
        H.reach("refused")
        H.check(state(H, whole, x) == want, "all is still there in memory", kind)
        return
    ref, = out
    H.check(state(H, whole, x) == want, "all is there in memory after storing", kind)
    H.restart()
    H.check(state(H, whole, load(H, whole, a, ref)) == want, "all is there in storage", kind)
    H.observe(str(want))
