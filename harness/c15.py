"""Finding a dataset's record from the top-level objects, and creating what is missing."""
from harness.top import add_run, first_session, nodes, save, states, sub_nodes
from harness.util import mrr_state, record, uuid, uuid_state, version_state

# (dataset, version, prefix, path, root dataset, root version)
PRESENT = [(1, "1", "", "", None, None), (1, "2", "p", "", None, None), (1, "2", "", "", None, None),
           (3, "s1", "", "sub/ds", 1, "1"), (2, "1b", "", "", None, None)]


def _lookup(H, tops, q, create):
    n, v, prefix, path, root, root_version = q
    P = H.M.MetadataPath
    tvl, us = tops
    return H.M.get_metadata_root_record_from_top_nodes(
        tvl, us, uuid(n), v, P(prefix), P(path), None if root is None else uuid(root), root_version, create)


def _tag(q):
    return "/".join(str(x) for x in q)


def _build(H, realm, present):
    tops = (H.M.TreeVersionList(), H.M.UUIDSet())
    for q in present:
        r = _lookup(H, tops, q, True)
        add_run(H, r, None, _tag(q))
        add_run(H, r, "f", _tag(q))
    return tops


def _want(q):
    return (str(uuid(q[0])), q[1], [("ex", "1", _tag(q))], [("f", [("ex", "1", _tag(q))])])


def _query(H):
    """Any dataset, version, prefix path and position; versions belong to one dataset."""
    n = H.pick("dataset", [1, 2, 3, 9])
    v = H.str("version", 2, 1, alpha=((49, 50), (98, 98), (115, 115)))
    if n == 3:
        H.assume(v == "s1" or v == "s2")
        path = H.pick("path", ["sub/ds", "sub", "other"])
        root_version = H.pick("root version", ["1", "2", "22"])
        # a version of the root dataset determines the versions of its sub-datasets
        H.assume(not (root_version == "1" and path == "sub/ds") or v == "s1")
        return (n, v, H.pick("prefix", ["", "p"]), path, 1, root_version)
    H.assume(v in ("1", "2", "21") if n == 1 else v in ("1b", "2b") if n == 2 else v == "bb")
    return (n, v, H.pick("prefix", ["", "p", "p/q"]), "", None, None)


def _listed_before(present, q):
    """The version list of the dataset has a record of this version from another position."""
    return q[4] is not None and q not in present and any(p[:2] == q[:2] for p in present)


def find(H):
    """Exactly the stored record is found, and looking for it changes nothing."""
    realm = H.repo()
    present = PRESENT[:H.int("present", 0, len(PRESENT))]
    tops = _build(H, realm, present)
    if H.bool("stored"):
        save(H, realm, *tops)
        H.restart()
        tops = H.M.get_top_level_metadata_objects("git", realm)
        H.check(tops[0] is not None and tops[1] is not None, "the top-level objects are there")
    q = _query(H)
    before = (version_state(tops[0]), uuid_state(tops[1]))
    r = _lookup(H, tops, q, False)
    # positions inside of other datasets' trees exist with the datasets, too
    known = [p for p in present if p == q]
    H.check((r is not None) == bool(known), "found exactly if it is there")
    if known:
        H.check(mrr_state(r) == _want(known[0]), "the right record")
        H.reach("found")
    else:
        H.reach("not found")
    H.check((version_state(tops[0]), uuid_state(tops[1])) == before or bool(known),
            "looking for a record that is not there adds nothing")
    H.observe([r is None])


def create(H):
    """Missing parts are created and linked on both sides; nothing that exists is touched."""
    realm = H.repo()
    present = PRESENT[:H.int("present", 0, len(PRESENT))]
    stored = H.bool("stored")
    tops = _build(H, realm, present)
    if stored:
        save(H, realm, *tops)
        H.restart()
        tops = H.M.get_top_level_metadata_objects("git", realm)
    q = _query(H)
    P = H.M.MetadataPath
    n, v, prefix, path, root, root_version = q
    r = _lookup(H, tops, q, True)
    H.check(r is not None, "a record is there in any case")
    known = [p for p in present if p == q]
    want = _want(known[0]) if known else (str(uuid(n)), v, [], [])
    H.check(mrr_state(r) == want, "the right record")
    H.check(_lookup(H, tops, q, True) is r, "the same record when asked again")
    H.check(_lookup(H, tops, q, False) is r, "the same record when asked again without creating it")
    dt = tops[0].get_dataset_tree(v if root is None else root_version, P(prefix))[2]
    H.check(dt.get_metadata_root_record(P(path)) is r, "in the tree")
    vl = tops[1].get_version_list(uuid(n))
    el = vl.get_versioned_element(v, P(prefix) if root is None else P(""))[2]
    if not _listed_before(present, q):
        H.check(el is r or (stored and known), "in the version list of the dataset")
        H.check(mrr_state(el) == want, "in the version list of the dataset")
    if root is not None:
        H.check(mrr_state(dt.get_metadata_root_record(P("")))[:2] == (str(uuid(root)), root_version),
                "the root dataset has a record, too")
        el = tops[1].get_version_list(uuid(root)).get_versioned_element(root_version, P(prefix))[2]
        H.check(mrr_state(el)[:2] == (str(uuid(root)), root_version),
                "the root dataset is in the set of datasets, too")
    if not known:
        add_run(H, r, None, _tag(q))
        add_run(H, r, "f", _tag(q))
        H.reach("created")
    save(H, realm, *tops)
    H.restart()
    tops = H.M.get_top_level_metadata_objects("git", realm)
    for p in present + ([] if known else [q]):
        r = _lookup(H, tops, p, False)
        H.check(r is not None and mrr_state(r) == _want(p), "everything is found after saving")
        el = tops[1].get_version_list(uuid(p[0])).get_versioned_element(p[1], P_(H, p))[2]
        H.check(mrr_state(el) == _want(p) or p not in present and _listed_before(present, q),
                "everything is in the set of datasets")
    # nothing else was added
    extra = [] if known else [q]
    if root is not None and not any(p[:3] == (root, root_version, prefix) for p in present):
        extra.append((root, root_version, prefix, "", None, None))
    total = len(present) + len(extra)
    H.check(sum(len(dataset_paths(t)) for t in trees(H, tops[0])) == total, "number of records in trees")
    H.check(sum(len(tops[1].get_version_list(u)) for u in tops[1].uuids())
            == total - int(_listed_before(present, q)),
            "number of records of datasets")


def P_(H, p):
    return H.M.MetadataPath(p[2] if p[4] is None else "")


def trees(H, tvl):
    return [tvl.get_dataset_tree(v, p)[2] for v, p in list(tvl.versions_and_prefix_paths())]


def dataset_paths(dt):
    return dt.dataset_paths


def entry_points(H):
    """The convenience function: top-level objects and record of a store in any condition."""
    realm = H.repo()
    have = H.pick("have", ["nothing", "trees", "datasets", "both"])
    create = H.bool("create")
    tvl, us = _build(H, realm, PRESENT[:1])
    if have in ("trees", "both"):
        tvl.write_out(realm)
    if have in ("datasets", "both"):
        us.write_out(realm)
    H.restart()
    sub = H.bool("sub-dataset")
    old = H.bool("present")
    if sub:
        q = (3, "s1", "", "x", 1, "1")
        t, u, r = sub_nodes(H, realm, 3, "s1", "x", 1, "1", create=create) if not old else (None,) * 3
        if old:
            return
    else:
        q = PRESENT[0] if old else (7, "7", "", "", None, None)
        t, u, r = nodes(H, realm, q[0], q[1], create=create)
    if not create:
        if have != "both":
            H.check(t is None and u is None and r is None, "nothing is found in an incomplete store")
        else:
            H.check((r is not None) == (old and not sub), "found exactly if it is there")
            if r is not None:
                H.check(mrr_state(r) == _want(q), "the right record")
        H.check(r is not None or not old or have != "both", "a stored record is found")
        return
    H.check(t is not None and u is not None and r is not None, "everything is created")
    H.check(r.dataset_version == q[1] or sub, "version of the record")
    if old and have in ("trees", "both"):
        H.check(mrr_state(r) == _want(q), "the stored record is used")
    save(H, realm, t, u)
    H.restart()
    tops = H.M.get_top_level_metadata_objects("git", realm)
    H.check(tops[0] is not None and tops[1] is not None, "both are stored")
    if have in ("trees", "both"):
        r = _lookup(H, tops, PRESENT[0], False)
        el = tops[0].get_dataset_tree("1", H.M.MetadataPath(""))[2].get_metadata_root_record(
            H.M.MetadataPath(""))
        H.check(mrr_state(el) == _want(PRESENT[0]), "stored trees are kept")
    if have in ("datasets", "both"):
        el = tops[1].get_version_list(uuid(1)).get_versioned_element("1", H.M.MetadataPath(""))[2]
        H.check(mrr_state(el) == _want(PRESENT[0]), "stored datasets are kept")


def both_sides(H):
    """A record that was found in a store, changed and saved is the same on both sides."""
    realm = H.repo()
    save(H, realm, *_build(H, realm, PRESENT[:1]))
    H.restart()
    t, u, r = nodes(H, realm, 1, "1")
    add_run(H, r, None, H.str("tag", 1, 1, "abc"), version="2")
    save(H, realm, t, u)
    H.restart()
    tops = H.M.get_top_level_metadata_objects("git", realm)
    P = H.M.MetadataPath("")
    a = tops[0].get_dataset_tree("1", P)[2].get_metadata_root_record(P)
    b = tops[1].get_version_list(uuid(1)).get_versioned_element("1", P)[2]
    H.check(len(mrr_state(a)[2]) == 2, "the change is in the tree")
    H.check(mrr_state(a) == mrr_state(b), "the change is seen from the set of datasets",
            "record loaded from the store")
