"""Shared by the harnesses that work on whole stores: sessions, updates, saving."""
from pathlib import Path

from harness.util import mrr_state, record, run, uuid, uuid_state, version_state, meta


def states(H, realm):
    """What a fresh reader sees: (tree version list, dataset set), each None if missing."""
    tvl, us = H.M.get_top_level_metadata_objects("git", realm)
    return (None if tvl is None else version_state(tvl), None if us is None else uuid_state(us))


def plain(s):
    """A state without time stamps"""
    tvl, us = s
    strip = lambda vs: [(v, p, pp, e) for v, p, ts, pp, e in vs]
    return (None if tvl is None else strip(tvl),
            None if us is None else [(u, strip(vs)) for u, vs in us])


def nodes(H, realm, n, version, prefix="", create=True):
    return H.M.get_top_nodes_and_metadata_root_record(
        "git", realm, uuid(n), version, H.M.MetadataPath(prefix), H.M.MetadataPath(""), None, None,
        create)


def sub_nodes(H, realm, n, version, path, root, root_version, prefix="", create=True):
    return H.M.get_top_nodes_and_metadata_root_record(
        "git", realm, uuid(root), root_version, H.M.MetadataPath(prefix), H.M.MetadataPath(path),
        uuid(n), version, create)


def add_run(H, r, path, tag, version="1"):
    if path is None:
        run(H, r.get_dataset_level_metadata(), tag, version=version)
    else:
        r.get_file_tree().add_extractor_run(
            H.M.MetadataPath(path), 1.5, "ex", "name", "mail",
            H.M.ExtractorConfiguration(version, {"p": "x"}), {"tag": tag})


def save(H, realm, tvl, us, order="tree first", flush=True):
    if order == "tree first":
        tvl.write_out(realm)
        us.write_out(realm)
    else:
        us.write_out(realm)
        tvl.write_out(realm)
    if flush:
        H.M.flush_object_references(Path(realm))


def first_session(H, realm, flush=True):
    """Dataset 1, version "1", with dataset-level metadata and three files."""
    tvl, us, r = nodes(H, realm, 1, "1")
    add_run(H, r, None, "d")
    for p in ("a", "d/b", "d/e/c"):
        add_run(H, r, p, p)
    save(H, realm, tvl, us, flush=flush)


UPDATES = ["new version", "new dataset", "sub-dataset", "change file", "new file", "change level",
           "remove file", "prefix", "record only"]


def update(H, realm, what, t="u", step=None):
    """Load the store, change something; the two top-level objects to save.  `step`, if given,
    runs each step (to try it again when it fails)."""
    P = H.M.MetadataPath
    step = step or (lambda f: f())
    if what == "new version":
        tvl, us, r = step(lambda: nodes(H, realm, 1, "2"))
        step(lambda: add_run(H, r, "n", t))
    elif what == "new dataset":
        tvl, us, r = step(lambda: nodes(H, realm, 2, "1b"))
        step(lambda: add_run(H, r, "n", t))
        step(lambda: add_run(H, r, None, t))
    elif what == "sub-dataset":
        tvl, us, r = step(lambda: sub_nodes(H, realm, 3, "s1", "sub/ds", 1, "1"))
        step(lambda: add_run(H, r, "n", t))
        step(lambda: add_run(H, r, None, t))
    elif what == "prefix":
        tvl, us, r = step(lambda: nodes(H, realm, 1, "1", "pre/fix"))
        step(lambda: add_run(H, r, None, t))
    elif what == "record only":
        # a record that is in the version list of a dataset only
        tvl, us = step(lambda: H.M.get_top_level_metadata_objects("git", realm))
        vl = step(lambda: us.get_version_list(uuid(1)))
        step(lambda: vl.set_versioned_element("only", "0", P(""), record(H, 4, files=("x",))))
    else:
        tvl, us, r = step(lambda: nodes(H, realm, 1, "1"))
        if what == "change file":
            step(lambda: add_run(H, r, "d/b", t, version="2"))
        elif what == "new file":
            step(lambda: add_run(H, r, "d/new", t))
        elif what == "change level":
            step(lambda: add_run(H, r, None, t, version="2"))
        elif step(lambda: r.get_file_tree().get_metadata(P("d/b"))) is not None:
            step(lambda: r.get_file_tree().mtree.get_object_at_path(P("d")).ensure_mapped())
            step(lambda: r.get_file_tree().mtree.remove_child_at(P("d/b")))
    return tvl, us
