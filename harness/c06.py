"""Version lists map (version, prefix path) to time stamp and content."""
from harness.util import mrr_state, dataset_state, record, uuid


def _element(H, kind, n):
    if kind == "record":
        return record(H, n, files=("f",))
    if kind == "bare record":
        return H.M.MetadataRootRecord(None, None, None, None)
    t = H.M.DatasetTree()
    if kind == "tree":
        t.add_dataset(H.M.MetadataPath(""), record(H, n, files=None))
        t.add_dataset(H.M.MetadataPath("s"), record(H, n + 100, files=("f",)))
    return t


def _content(H, el):
    el.read_in()
    if isinstance(el, H.M.DatasetTree):
        return ("tree", dataset_state(el))
    return ("record", mrr_state(el))


def _norm(H, p):
    return str(H.M.MetadataPath(p))


def _compare(H, vl, model, where):
    P = H.M.MetadataPath
    H.check(len(vl) == len(model), "number of entries", where)
    H.check(len(list(vl.versions_and_prefix_paths())) == len(model), "number of keys", where)
    for v, p, ts, content in model:
        H.check(len([1 for a, b in vl.versions_and_prefix_paths() if a == v and str(b) == p]) == 1,
                "the entry is listed once", where)
        H.check(v in list(vl.versions()), "the version is listed", where)
        got = vl.get_versioned_element(v, P(p))
        H.check(got[0] == ts, "time stamp", where)
        H.check(str(got[1]) == p, "prefix path", where)
        H.check(_content(H, got[2]) == content, "content", where)
        same = [m for m in model if m[0] == v]
        many = list(vl.get_versioned_elements(v))
        H.check(len(many) == len(same), "all prefix paths of a version", where)
        H.check(len([1 for a, b, c in many if a == ts and str(b) == p and c is got[2]]) == 1,
                "entry of a version", where)
        H.check(len([1 for a, (b, c, d) in vl.versioned_elements
                     if a == v and b == ts and str(c) == p and d is got[2]]) == 1,
                "entry among all", where)
        if isinstance(vl, H.M.TreeVersionList):
            g = vl.get_dataset_tree(v, P(p))
            H.check(g[0] == ts and str(g[1]) == p and g[2] is got[2], "dataset tree", where)
            H.check(len(list(vl.get_dataset_trees(v))) == len(same), "dataset trees of a version", where)
    H.check(len(list(vl.versioned_elements)) == len(model), "number of elements", where)
    H.check(len(list(vl.versions())) == len(model), "number of versions", where)


def _reload(H, vl, tree, realm, how):
    if how == "direct":
        name = "TreeVersionList" if tree else "VersionList"
        ref = vl.write_out(realm)
        H.check(ref.class_name == name, "class of the reference")
        H.restart()
        return getattr(H.M, name)(None, realm, H.M.Reference(name, ref.location))
    if how == "purge":
        vl.write_out(realm)
        vl.purge()
        return vl
    if tree:
        vl.write_out(realm)
        H.restart()
        return H.M.get_top_level_metadata_objects("git", realm)[0]
    us = H.M.UUIDSet({uuid(5): vl})
    us.write_out(realm)
    H.restart()
    return H.M.get_top_level_metadata_objects("git", realm)[1].get_version_list(uuid(5))


def _set(H, vl, tree, model, i, alpha, n):
    v = H.str("version", n, alpha=alpha)
    p = H.pick("prefix", ["", "a", "b/c"]) if alpha == "ab" else H.str("prefix", n, alpha="path")
    ts = f"{i}.5" if alpha == "ab" else H.str("time stamp", n)
    kinds = ["tree", "empty tree"] if tree else ["record", "bare record", "tree"]
    kind = H.pick("kind", kinds) if i == H.bound("sets", 1) - 1 or H.bound("rich") else kinds[0]
    path = H.M.MetadataPath(p)
    el = _element(H, kind, i + 1)
    content = _content(H, el)
    if tree and (H.bool("dataset interface") if H.bound("rich") else i % 2):
        vl.set_dataset_tree(v, ts, path, el)
    else:
        vl.set_versioned_element(v, ts, path, el)
    model[:] = [m for m in model if not (m[0] == v and m[1] == str(path))]
    model.append((v, str(path), ts, content))


def entries(H):
    """Entries set in any order, replaced, stored in between; version, prefix path from small sets."""
    tree = H.bool("tree version list")
    vl = (H.M.TreeVersionList if tree else H.M.VersionList)()
    model = []
    realm = H.repo()
    n = H.bound("sets", 2)
    stop = H.int("reload after", 0, n)
    how = H.pick("how", ["direct", "top", "purge"])
    for i in range(n):
        if i == stop:
            vl = _reload(H, vl, tree, realm, how)
            H.check(len(vl) >= 0 and len(vl) in (0, len(model)), "length")
        _set(H, vl, tree, model, i, "ab", 1)
    _compare(H, vl, model, "in memory")
    probe = H.str("probe", 1, alpha="ab")
    for pp in ["", "a", "b/c"]:
        e = H.raises(vl.get_versioned_element, probe, H.M.MetadataPath(pp))
        known = any(m[0] == probe and m[1] == pp for m in model)
        H.check((e is None) == known, "an entry is found exactly if it was set")
        H.check(e is None or isinstance(e, KeyError), "a missing entry is reported as such")
    if model and (H.bool("unget") if H.bound("rich") else stop == n):
        v, p = model[0][:2]
        if tree:
            vl.unget_dataset_tree(v, H.M.MetadataPath(p), realm)
        else:
            vl.unget_versioned_element(v, H.M.MetadataPath(p), realm)
        _compare(H, vl, model, "after unloading an element")
    vl = _reload(H, vl, tree, realm, how)
    vl.ensure_mapped()
    _compare(H, vl, model, "stored")
    H.observe_bag([[m[0], m[1], m[2]] for m in model])


def texts(H):
    """One or two entries with arbitrary version, prefix path and time stamp."""
    tree = H.bool("tree version list")
    vl = (H.M.TreeVersionList if tree else H.M.VersionList)()
    model = []
    realm = H.repo()
    v = H.str("version", H.bound("len", 1))
    ts = H.str("time stamp", H.bound("len", 1))
    p = H.str("prefix", H.bound("len", 1), alpha="path")
    path = H.M.MetadataPath(p)
    el = _element(H, "tree" if tree else "record", 1)
    content = _content(H, el)
    vl.set_versioned_element(v, ts, path, el)
    model.append((v, str(path), ts, content))
    if H.bool("second"):
        w = H.str("second version", H.bound("len", 1))
        el = _element(H, "tree" if tree else "record", 2)
        content = _content(H, el)
        vl.set_versioned_element(w, "t", path, el)
        model = [m for m in model if not m[0] == w]
        model.append((w, str(path), "t", content))
    vl = _reload(H, vl, tree, realm, "direct")
    vl.ensure_mapped()
    _compare(H, vl, model, "stored")
    H.observe_bag([[m[0], m[1], m[2]] for m in model])
