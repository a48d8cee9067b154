"""Unloading keeps what was stored, and refuses to drop what was not."""
from harness.util import (dataset_state, file_items, meta, mrr_state, record, run, same_runs, runs,
                          tags, uuid, uuid_state, vary, version_state)

KINDS = ["Metadata", "Text", "FileTree", "DatasetTree", "MetadataRootRecord", "VersionList",
         "TreeVersionList", "UUIDSet"]


def make(H, kind):
    P = H.M.MetadataPath
    if kind == "Text":
        return H.M.Text(H.str("text", H.bound("len", 2)))
    if kind == "Metadata":
        m = meta(H, "t")
        run(H, m, H.str("content", H.bound("len", 1)), extractor="other")
        return m
    if kind == "FileTree":
        ft = H.M.FileTree()
        for p in ("a", "d/b", "d/e/c"):
            ft.add_metadata(P(p), meta(H, p))
        return ft
    r = record(H, 1, files=("f", "d/g"))
    if kind == "MetadataRootRecord":
        return r
    if kind == "VersionList":
        vl = H.M.VersionList()
        vl.set_versioned_element("1", "0", P(""), r)
        return vl
    if kind == "UUIDSet":
        vl = H.M.VersionList()
        vl.set_versioned_element("1", "0", P("p"), r)
        return H.M.UUIDSet({uuid(1): vl, uuid(2): H.M.VersionList()})
    dt = H.M.DatasetTree()
    dt.add_dataset(P(""), r)
    dt.add_dataset(P("s/t"), record(H, 2, files=()))
    if kind == "DatasetTree":
        return dt
    tvl = H.M.TreeVersionList()
    tvl.set_dataset_tree("1", "0", P(""), dt)
    return tvl


def load(H, kind, realm, ref):
    R = H.M.Reference
    loc = ref.location
    if kind in ("FileTree", "DatasetTree"):
        return getattr(H.M, kind)(None, realm, R("MTreeNode", loc))
    if kind in ("Metadata", "Text", "MetadataRootRecord"):
        return getattr(H.M, kind).get_empty_instance(realm, R(kind, loc))
    return getattr(H.M, kind)(None, realm, R(kind, loc))


def state(H, kind, x):
    """The content, through the object's own accessors"""
    if kind == "Text":
        x.ensure_mapped()
        return x.content
    if kind == "Metadata":
        return sorted([e, r[0], sorted(r[1].items()), r[2], r[3], r[4], r[5]["tag"]] for e, rs in runs(x).items() for r in rs)
    if kind == "FileTree":
        return sorted(file_items(x).items())
    if kind == "DatasetTree":
        return dataset_state(x)
    if kind == "MetadataRootRecord":
        return mrr_state(x)
    if kind in ("VersionList", "TreeVersionList"):
        return version_state(x)
    return uuid_state(x)


def spots(kind):
    """Where an object can be changed"""
    out = ["itself"]
    if kind in ("FileTree",):
        out += ["file"]
    if kind in ("MetadataRootRecord", "DatasetTree", "VersionList", "TreeVersionList", "UUIDSet"):
        out += ["file", "files", "level", "parts"]
    if kind in ("TreeVersionList",):
        out += ["tree"]
    if kind == "UUIDSet":
        out += ["list"]
    return out


def change(H, kind, x, spot):
    P = H.M.MetadataPath
    if kind == "Text":
        x.content = x.content + "+"
        x.touch()
        return
    if kind == "Metadata":
        vary(H, x, "changed")
        return
    if kind == "FileTree":
        if spot == "itself":
            x.add_metadata(P("d/new"), meta(H, "new"))
        else:
            vary(H, x.get_metadata(P("d/b")), "changed")
        return
    if spot == "itself" and kind == "MetadataRootRecord":
        x.set_dataset_level_metadata(meta(H, "changed"))
        return
    if spot == "itself" and kind == "DatasetTree" or spot == "tree":
        if spot == "tree":
            x = x.get_dataset_tree("1", P(""))[2]
        x.add_dataset(P("n"), record(H, 8))
        return
    if spot == "itself" and kind in ("VersionList", "TreeVersionList"):
        if kind == "VersionList":
            x.set_versioned_element("1", "1", P(""), record(H, 9))
        else:
            x.set_dataset_tree("1", "1", P("q"), H.M.DatasetTree())
        return
    if kind == "UUIDSet":
        if spot == "itself":
            x.set_version_list(uuid(3), H.M.VersionList())
            return
        vl = x.get_version_list(uuid(1))
        if spot == "list":
            vl.set_versioned_element("2", "1", P(""), record(H, 9))
            return
        r = vl.get_versioned_element("1", P("p"))[2]
    elif kind == "VersionList":
        r = x.get_versioned_element("1", P(""))[2]
    elif kind == "TreeVersionList":
        r = x.get_dataset_tree("1", P(""))[2].get_metadata_root_record(P(""))
    elif kind == "DatasetTree":
        r = x.get_metadata_root_record(P(""))
    else:
        r = x
    if spot == "file":
        run(H, r.get_file_tree().get_metadata(P("d/g")), "changed")
    elif spot == "files":
        r.get_file_tree().add_metadata(P("d/new"), meta(H, "new"))
    elif spot == "level":
        vary(H, r.get_dataset_level_metadata(), "changed")
    else:
        r.set_file_tree(H.M.FileTree())


def _start(H, kind, how, realm):
    x = make(H, kind)
    if how == "new":
        return x
    x.write_out(realm)
    if how == "written":
        return x
    if how == "purged":
        x.purge()
        return x
    ref = x.write_out(realm)
    H.restart()
    return load(H, kind, realm, ref)


def refuse(H):
    """Whatever was changed and not stored since keeps the object in memory."""
    kind = H.pick("kind", KINDS)
    realm = H.repo()
    how = H.pick("how", ["new", "written", "purged", "loaded"])
    x = _start(H, kind, how, realm)
    spot = None
    if how != "new" or H.bool("changed"):
        spot = H.pick("spot", spots(kind))
        x.read_in()
        change(H, kind, x, spot)
    before = state(H, kind, x)
    e = H.raises(x.purge)
    H.check(isinstance(e, ValueError), "dropping unsaved content is refused", f"{kind} {spot} {how}")
    H.check(state(H, kind, x) == before, "nothing is dropped", f"{kind} {spot} {how}")
    ref = x.write_out(realm)
    H.check(state(H, kind, x) == before, "unchanged by storing", f"{kind} {spot} {how}")
    x.purge()
    H.check(state(H, kind, x) == before, "restored after unloading", f"{kind} {spot} {how}")
    H.restart()
    x = load(H, kind, realm, ref)
    H.check(state(H, kind, x) == before, "stored", f"{kind} {spot} {how}")
    H.observe([kind, how])


def transparent(H):
    """Unloading and loading in any order is invisible."""
    kind = H.pick("kind", KINDS)
    realm = H.repo()
    other = H.repo()
    x = make(H, kind)
    want = state(H, kind, x)
    ref = None
    refused = False
    where = realm
    if H.bool("loaded"):
        # in memory, but not its parts
        ref = x.write_out(realm)
        H.restart()
        x = load(H, kind, realm, ref).read_in()
    for i in range(H.bound("steps", 3)):
        op = H.pick("op", ["write", "write again", "purge", "load", "look", "other", "fresh"])
        if op == "write":
            r = x.write_out(where)
            H.check(ref is None or (r.location == ref.location and r.class_name == ref.class_name),
                    "an unchanged object is stored under the same name", kind)
            ref, refused = r, False
        elif op == "write again":
            if ref is None:
                continue
            r = x.write_out()
            H.check(r.location == ref.location, "an unchanged object is stored under the same name", kind)
        elif op == "purge":
            e = H.raises(x.purge)
            H.check((e is None) == (ref is not None) or refused and isinstance(e, ValueError),
                    "unloading is possible exactly if it was stored", kind)
        elif op == "load":
            if ref is not None:
                x.read_in()
        elif op == "look":
            H.check(state(H, kind, x) == want, "content", kind)
        elif op == "other":
            if where == other:
                continue
            e = H.raises(x.write_out, other)
            if e is None:
                where, ref = other, x.reference
                H.reach("second place")
            else:
                # parts that are not in memory cannot be stored in another place
                H.check(isinstance(e, RuntimeError) and ref is not None, "storing elsewhere", str(type(e)))
                H.reach("refused")
                # (files that were handed to git together and refused have to be stored again)
                refused = True
        else:
            if ref is None:
                continue
            H.restart()
            x = load(H, kind, where, ref)
    H.check(state(H, kind, x) == want, "content", kind)
    if ref is not None:
        H.restart()
        H.check(state(H, kind, load(H, kind, where, ref)) == want, "stored content", kind)
    H.observe(kind)


def comparisons(H):
    """Comparing and serialising metadata that is not in memory."""
    realm = H.repo()
    a, b = meta(H, "t"), meta(H, "t" if H.bool("same") else "u")
    want = runs(a) == runs(b)
    text = a.to_json()
    for n, x in (("first", a), ("second", b)):
        how = H.pick(n, ["memory", "written", "purged"])
        if how != "memory":
            x.write_out(realm)
        if how == "purged":
            x.purge()
    what = H.pick("what", ["equal", "json", "extractors", "runs", "runs of an extractor", "add"])
    if what == "equal":
        H.check((a == b) == want, "comparison")
    elif what == "json":
        H.check(a.to_json() == text, "serialisation")
    elif what == "extractors":
        H.check(list(a.extractors) == ["ex"], "extractors")
    elif what == "runs":
        H.check([n for n, _ in a.extractor_runs] == ["ex"], "runs")
    elif what == "runs of an extractor":
        H.check([i.metadata_content for i in a.extractor_runs_for_extractor("ex")] == [{"tag": "t"}], "runs")
    else:
        run(H, a, "more", version="2")
        H.check(tags(a) == [("ex", "1", "t"), ("ex", "2", "more")], "added to what was there")


def scoped(H):
    """ensure_mapped() as a context: in memory inside, as before outside."""
    kind = H.pick("kind", KINDS)
    realm = H.repo()
    x = make(H, kind)
    want = state(H, kind, x)
    x.write_out(realm)
    purged = H.bool("purged")
    if purged:
        x.purge()
    fail = H.bool("exception inside")
    mapped = lambda: x.mtree.mapped if hasattr(x, "mtree") else x.mapped
    try:
        with H.M.ensure_mapped(x):
            H.check(mapped(), "in memory inside", kind)
            if fail:
                raise KeyError("x")
    except KeyError:
        H.check(fail, "only this exception")
    H.check(mapped() == (not purged), "as before outside", kind)
    H.check(state(H, kind, x) == want, "content", kind)
    with H.M.ensure_mapped(None) as n:
        H.check(n is None, "nothing to load")


def parts(H):
    """Unloading a part of a list works whether the list is in memory or not."""
    kind = H.pick("kind", ["VersionList", "TreeVersionList", "UUIDSet"])
    realm = H.repo()
    P = H.M.MetadataPath
    x = make(H, kind)
    want = state(H, kind, x)
    ref = None
    how = H.pick("how", ["new", "memory", "purged", "loaded", "changed"])
    if how != "new":
        ref = x.write_out(realm)
    if how == "purged":
        x.purge()
    elif how == "loaded":
        H.restart()
        x = load(H, kind, realm, ref)
    elif how == "changed":
        change(H, kind, x, "file")
        want = state(H, kind, x)
    if kind == "UUIDSet":
        if how == "new":
            x.get_version_list(uuid(1)).write_out(realm)
        x.unget_version_list(uuid(1))
        part = x.uuid_set[uuid(1)]
    elif kind == "VersionList":
        x.unget_versioned_element("1", P(""), realm)
        part = x.version_set["1"][P("")].element
    else:
        x.unget_dataset_tree("1", P(""), realm)
        part = x.version_set["1"][P("")].element.mtree
    H.check(not part.mapped, "the part is not in memory", f"{kind} {how}")
    H.check(state(H, kind, x) == want, "content", f"{kind} {how}")
    new = x.write_out(realm)
    H.check(ref is None or how == "changed" or new.location == ref.location,
            "an unchanged object is stored under the same name", f"{kind} {how}")
    H.restart()
    H.check(state(H, kind, load(H, kind, realm, new)) == want, "stored content", f"{kind} {how}")
    H.observe([kind, how])


def accessors(H):
    """Each accessor alone gives the same on an object in memory and on one that is not."""
    kind = H.pick("kind", H.bound("kinds", KINDS))
    realm = H.repo()
    x = make(H, kind)
    P = H.M.MetadataPath
    questions = QUESTIONS[kind]
    q = questions[H.pick("question", list(range(len(questions))))]
    want = q(H, P, x)
    ref = x.write_out(realm)
    how = H.pick("how", ["purged", "loaded", "deepcopy"])
    if how == "purged":
        x.purge()
    elif how == "loaded":
        H.restart()
        x = load(H, kind, realm, ref)
    else:
        x = x.deepcopy(new_destination=H.repo())
    H.check(q(H, P, x) == want, "the answer does not depend on what is in memory", kind)


def _paths(x):
    return sorted(str(p) for p, _ in x.get_paths_recursive())


def _fields(r):
    """What is read from a record that was handed out, without calling anything"""
    return (str(r.dataset_identifier), r.dataset_version)


QUESTIONS = {
    "Text": [lambda H, P, x: (x.ensure_mapped(), x.content)[1]],
    "Metadata": [lambda H, P, x: sorted(x.extractors), lambda H, P, x: sorted(n for n, _ in x.extractor_runs),
                 lambda H, P, x: len([i for i in x.extractor_runs_for_extractor("ex")]),
                 lambda H, P, x: x.to_json()],
    "FileTree": [lambda H, P, x: _paths(x), lambda H, P, x: P("d/b") in x, lambda H, P, x: P("d/x") in x,
                 lambda H, P, x: tags(x.get_metadata(P("d/b"))),
                 lambda H, P, x: x.get_metadata(P("zz")) is None],
    "DatasetTree": [lambda H, P, x: sorted(str(p) for p, _ in x.dataset_paths),
                    lambda H, P, x: P("s/t") in x, lambda H, P, x: P("s") in x,
                    lambda H, P, x: mrr_state(x.get_metadata_root_record(P("s/t"))),
                    lambda H, P, x: _fields(x.get_metadata_root_record(P("s/t"))),
                    lambda H, P, x: x.get_metadata_root_record(P("zz")) is None],
    "MetadataRootRecord": [lambda H, P, x: _paths(x.get_file_tree()),
                           lambda H, P, x: file_items(x.file_tree),
                           lambda H, P, x: tags(x.get_dataset_level_metadata())],
    "VersionList": [lambda H, P, x: len(x), lambda H, P, x: list(x.versions()),
                    lambda H, P, x: [(v, str(p)) for v, p in x.versions_and_prefix_paths()],
                    lambda H, P, x: mrr_state(x.get_versioned_element("1", P(""))[2]),
                    lambda H, P, x: [(v, t, str(p), mrr_state(e)) for v, (t, p, e) in x.versioned_elements],
                    lambda H, P, x: isinstance(H.raises(x.get_versioned_element, "2", P("")), KeyError),
                    lambda H, P, x: [_fields(e) for t, p, e in x.get_versioned_elements("1")],
                    lambda H, P, x: _fields(x.get_versioned_element("1", P(""))[2]),
                    lambda H, P, x: [(t, str(p), mrr_state(e)) for t, p, e in x.get_versioned_elements("1")]],
    "TreeVersionList": [lambda H, P, x: len(x), lambda H, P, x: list(x.versions()),
                        lambda H, P, x: [(v, str(p)) for v, p in x.versions_and_prefix_paths()],
                        lambda H, P, x: dataset_state(x.get_dataset_tree("1", P(""))[2]),
                        lambda H, P, x: [(v, t, str(p), dataset_state(e.read_in()))
                                         for v, (t, p, e) in x.versioned_elements],
                        lambda H, P, x: isinstance(H.raises(x.get_dataset_tree, "2", P("")), KeyError),
                        lambda H, P, x: [(t, str(p), dataset_state(e)) for t, p, e in x.get_dataset_trees("1")]],
    "UUIDSet": [lambda H, P, x: sorted(str(u) for u in x.uuids()),
                lambda H, P, x: len(x.get_version_list(uuid(1))),
                lambda H, P, x: isinstance(H.raises(x.get_version_list, uuid(7)), KeyError),
                lambda H, P, x: version_state(x.get_version_list(uuid(1)))],
}
