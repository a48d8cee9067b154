"""A tree is a map from paths to items."""
from harness.util import REC, meta, load_tree, tag, record


def _name(H, what, alpha):
    if alpha == "sym":
        # any one-character name, except the path separator and "."
        return H.str(what, 1, 1, alpha=((1, 45), (48, 0xd7ff), (0xe000, 0x10ffff)))
    return H.pick(what, ["a", "b"])


DEEP = ["a", "b", "c", "d", "e"]


def _path(H, depth, alpha):
    if alpha == "deep":
        # along, or off, a deep path
        k = H.int("common", 0, len(DEEP))
        more = H.int("more", 0 if k else 1, 1)
        return DEEP[:k] + [_name(H, "name", "sym") for i in range(more)]
    n = H.int("depth", 1, depth)
    return [_name(H, f"name{i}", alpha) for i in range(n)]


def _m_find(model, parts):
    node = model
    for p in parts:
        if not isinstance(node, dict) or p not in node:
            return None
        node = node[p]
    return node


def _m_add(model, parts, obj):
    """False: this must be rejected"""
    node = model
    for i, p in enumerate(parts[:-1]):
        if p not in node:
            node[p] = {}
        node = node[p]
        if not isinstance(node, dict):
            return False
    if parts[-1] in node:
        return False
    node[parts[-1]] = obj
    return True


def _m_items(model, prefix=()):
    for k, v in model.items():
        if isinstance(v, dict):
            for x in _m_items(v, prefix + (k,)):
                yield x
        else:
            yield prefix + (k,), v


def _compare(H, tree, model, dataset, where):
    P = H.M.MetadataPath
    listed = [(tuple(p.parts), o) for p, o in tree.get_paths_recursive()]
    want = list(_m_items(model))
    H.check(len(listed) == len(want), "number of listed paths", where)
    for parts, o in want:
        hits = [x for q, x in listed if q == parts]
        H.check(len(hits) == 1, "listed exactly once", where)
        H.check(_same(hits[0], o), "listed object", where)
        path = P("/".join(parts))
        if dataset:
            path = P("/".join(parts[:-1]))
            got = tree.get_metadata_root_record(path)
        else:
            got = tree.get_metadata(path)
        H.check(got is not None and _same(got, o), "lookup leads to the added object", where)
        H.check(path in tree, "membership", where)
    if dataset:
        ds = tree.dataset_paths
        H.check(len(ds) == len(want), "dataset listing", where)
        for parts, o in want:
            H.check(len([1 for p, r in ds if tuple(p.parts) == parts[:-1] and _same(r, o)]) == 1,
                    "dataset listed once", where)


def _same(got, o):
    """o is the object itself, or the tag it was stored with"""
    if isinstance(o, str):
        if hasattr(got, "dataset_version"):
            got.ensure_mapped()
            return got.dataset_version == o
        got.ensure_mapped()
        return tag(got) == o
    return got is o


def _probe(H, tree, model, dataset, alpha, depth):
    """Any other path: found exactly if it is there."""
    _probe_at(H, tree, model, dataset, _path(H, depth, alpha))


def _probe_at(H, tree, model, dataset, parts):
    P = H.M.MetadataPath
    if dataset:
        want = _m_find(model, parts + [REC])
        got = tree.get_metadata_root_record(P("/".join(parts)))
        H.check((got is None) == (want is None), "lookup of an arbitrary path")
        if want is not None:
            H.check(_same(got, want), "lookup of an arbitrary path: object")
        H.check((P("/".join(parts)) in tree) == (want is not None), "membership of an arbitrary path")
    else:
        want = _m_find(model, parts)
        H.check((P("/".join(parts)) in tree) == (want is not None), "membership of an arbitrary path")
        if len(parts) == 1:
            H.check(tree.mtree.contains_child(parts[0]) == (P(parts[0]) in tree.mtree)
                    == (want is not None), "membership of a child")
        if want is None:
            H.check(tree.get_metadata(P("/".join(parts))) is None, "lookup of an arbitrary path")
        elif not isinstance(want, dict):
            H.check(_same(tree.get_metadata(P("/".join(parts))), want), "lookup of an arbitrary path: object")
            H.reach("probe-hit")


def _new(H, dataset, label):
    if dataset:
        return H.M.MetadataRootRecord(None, label, None, None)
    return meta(H, label)


def _step(H, tree, model, dataset, alpha, depth, i):
    P = H.M.MetadataPath
    op = H.pick("op", ["add", "remove", "subtree", "run"] if not dataset
                else ["add", "remove", "subtree"])
    parts = _path(H, depth, alpha)
    path = P("/".join(parts))
    if op == "add":
        obj = _new(H, dataset, f"new{i}")
        if dataset:
            if H.bool("at root"):
                parts, path = [], P("")
            ok = _m_add(model, parts + [REC], obj)
            e = H.raises(tree.add_dataset, path, obj)
        else:
            ok = _m_add(model, parts, obj)
            e = H.raises(tree.add_metadata, path, obj)
        H.check((e is None) == ok, "adding succeeds exactly if the path is free", str(type(e)))
        H.check(e is None or isinstance(e, ValueError), "rejected with ValueError", str(type(e)))
        H.reach("added" if ok else "add rejected")
    elif op == "run":
        # adds an extractor run, creating the item if it does not exist
        want = _m_find(model, parts)
        if want is not None:
            return
        c = H.M.ExtractorConfiguration("1", {})
        ok = _m_add(model, parts, f"run{i}")
        e = H.raises(tree.add_extractor_run, path, 1.0, "e", "n", "m", c, {"tag": f"run{i}"})
        H.check((e is None) == ok, "a run creates its item exactly if the path is free", str(type(e)))
    elif op == "remove":
        want = _m_find(model, parts)
        f = tree.delete_subtree if dataset else tree.mtree.remove_child_at
        e = H.raises(f, path)
        H.check((e is None) == (want is not None), "removing succeeds exactly if the path exists",
                str(type(e)))
        if want is not None:
            node = _m_find(model, parts[:-1])
            del node[parts[-1]]
            H.reach("removed")
    else:
        obj = _new(H, dataset, f"sub{i}")
        sub = type(tree)()
        if dataset:
            sub.add_dataset(P("s"), obj)
            ok = _m_add(model, parts, {"s": {REC: obj}})
            e = H.raises(tree.add_subtree, sub, path)
        else:
            sub.add_metadata(P("s"), obj)
            ok = _m_add(model, parts, {"s": obj})
            if len(parts) == 1 and H.bool("directly"):
                e = H.raises(tree.mtree.add_child, parts[0], sub.mtree)
            else:
                e = H.raises(tree.mtree.add_child_at, sub.mtree, path)
        H.check((e is None) == ok, "adding a sub-tree succeeds exactly if the path is free", str(type(e)))
        H.check(e is None or isinstance(e, ValueError), "rejected with ValueError", str(type(e)))


def in_memory(H):
    """Any sequence of additions and removals on a new tree, compared with nested dicts, and any probed path."""
    dataset = H.bool("dataset tree")
    alpha = H.bound("alpha", "sym")
    depth = H.bound("depth", 2)
    tree = (H.M.DatasetTree if dataset else H.M.FileTree)()
    model = {}
    for i in range(H.bound("ops", 3)):
        _step(H, tree, model, dataset, alpha, depth, i)
        if i + 1 < H.bound("ops", 3):
            continue
    _compare(H, tree, model, dataset, "in memory")
    _probe(H, tree, model, dataset, alpha, H.bound("probe", depth))
    H.observe_bag([list(p) for p, _ in _m_items(model)])


def stored(H):
    """The same on a tree that is lazily loaded from storage, and once more after saving it."""
    dataset = H.bool("dataset tree")
    depth = H.bound("depth", 2)
    P = H.M.MetadataPath
    realm = H.repo()
    tree = (H.M.DatasetTree if dataset else H.M.FileTree)()
    model = {}
    start = H.pick("stored", [["a"], ["a/a", "b"], ["a/a", "a/b"]])
    for n, p in enumerate(start):
        o = _new(H, dataset, f"stored{n}")
        if dataset:
            tree.add_dataset(P(p), o)
        else:
            tree.add_metadata(P(p), o)
        _m_add(model, p.split("/") + ([REC] if dataset else []), f"stored{n}")
    ref = tree.write_out(realm)
    H.restart()
    tree = load_tree(H, "DatasetTree" if dataset else "FileTree", realm, ref)
    for i in range(H.bound("ops", 1)):
        _step(H, tree, model, dataset, "ab", depth, i)
    _compare(H, tree, model, dataset, "loaded")
    ref = tree.write_out(realm)
    if not list(_m_items(model)):
        H.reach("became empty")
        H.check(ref.is_none_reference(), "an empty tree has no stored object")
        return
    H.restart()
    tree = load_tree(H, "DatasetTree" if dataset else "FileTree", realm, ref)
    names = {}
    for parts, o in list(_m_items(model)):
        _m_add(names, list(parts), o if isinstance(o, str) else _label(o))
    _compare(H, tree, names, dataset, "saved and loaded again")
    H.observe_bag([list(p) for p, _ in _m_items(model)])


def deep(H):
    """Paths of several levels; operations at, above, below and beside every level."""
    dataset = H.bool("dataset tree")
    loaded = H.bool("loaded")
    P = H.M.MetadataPath
    realm = H.repo()
    tree = (H.M.DatasetTree if dataset else H.M.FileTree)()
    model = {}
    for n, p in enumerate(["a/b/c/d/e", "a/b/x", "a/b/c/y/e"]):
        o = _new(H, dataset, f"stored{n}")
        if dataset:
            tree.add_dataset(P(p), o)
        else:
            tree.add_metadata(P(p), o)
        _m_add(model, p.split("/") + ([REC] if dataset else []), f"stored{n}" if loaded else o)
    if loaded:
        ref = tree.write_out(realm)
        H.restart()
        tree = load_tree(H, "DatasetTree" if dataset else "FileTree", realm, ref)
    for i in range(H.bound("ops", 1)):
        _step(H, tree, model, dataset, "deep", 0, i)
    _compare(H, tree, model, dataset, "deep")
    for k in range(len(DEEP) + 1):
        for more in ([], ["z"], ["b"], ["y", "e"]):
            if k or more:
                _probe_at(H, tree, model, dataset, DEEP[:k] + more)


def _label(o):
    return o.dataset_version if hasattr(o, "dataset_version") else tag(o)
