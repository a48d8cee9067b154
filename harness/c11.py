"""Whatever was saved and flushed survives garbage collection."""
from pathlib import Path

from harness.c19 import SPELLINGS
from harness.top import UPDATES, first_session, plain, save, states, update
from harness.util import record, uuid, meta


def sessions(H):
    """A first session, then others that change something; garbage collection after each."""
    realm = H.repo()
    first_session(H, realm)
    if H.bool("collected after the first"):
        H.restart()
        H.prune(realm)
    for i in range(H.bound("sessions", 1)):
        H.restart()
        t = H.str("tag", 1)
        tvl, us = update(H, realm, H.pick("update", UPDATES), t)
        how = H.pick("how", ["once", "list first", "twice", "purged", "flush between", "parts", "both"])
        if how == "once" or how == "list first":
            save(H, realm, tvl, us, "tree first" if how == "once" else "list first")
        elif how == "twice":
            save(H, realm, tvl, us)
            save(H, realm, tvl, us)
        elif how == "purged":
            save(H, realm, tvl, us, flush=False)
            tvl.purge()
            us.purge()
            H.M.flush_object_references(Path(realm))
        elif how == "flush between":
            tvl.write_out(realm)
            H.M.flush_object_references(Path(realm))
            us.write_out(realm)
            H.M.flush_object_references(Path(realm))
        elif how == "parts":
            for v, (ts, p, el) in list(tvl.versioned_elements):
                el.read_in()
                for q, r in el.dataset_paths:
                    r.write_out(realm)
                tvl.unget_dataset_tree(v, p, realm)
            for u in list(us.uuids()):
                us.get_version_list(u).write_out(realm)
                us.unget_version_list(u)
            save(H, realm, tvl, us)
        else:
            # two changes in one process, flushed once
            save(H, realm, tvl, us, flush=False)
            tvl, us = update(H, realm, "change file" if H.bool("second") else "new dataset", "x")
            save(H, realm, tvl, us)
    H.restart()
    want = states(H, realm)
    H.check(want[0] is not None and want[1] is not None, "both are there")
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there")
    H.check(states(H, realm) == want, "content after garbage collection")
    H.check(H.lock_held(realm) is False, "not locked")
    H.observe(t)


def spelled(H):
    """One store, whose path is written in different ways."""
    realm = H.repo()
    first = H.spelled(realm, H.pick("first session", SPELLINGS[:2]))
    first_session(H, first)
    want = plain(states(H, realm))
    H.restart()
    load, store = (H.spelled(realm, H.pick(x, SPELLINGS[:3])) for x in ("loaded as", "saved as"))
    what = H.pick("update", ["new version", "sub-dataset", "change file", "change level", "prefix"])
    t = H.str("tag", 1)
    tvl, us = update(H, load, what, t)
    try:
        save(H, store, tvl, us, flush=False)
    except RuntimeError:
        # taken for another store: not everything that is to be saved there is in memory
        H.check(load != store, "saving where it was loaded from is not refused", what)
        H.reach("refused")
        save(H, load, tvl, us, flush=False)
    H.M.flush_object_references(Path(H.spelled(realm, H.pick("flushed as", SPELLINGS[1:3]))))
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", what)
    got = states(H, realm)
    # the same update of a store that is named in one way only
    other = H.repo()
    H.restart()
    first_session(H, other)
    H.check(plain(states(H, other)) == want, "content after the first session")
    H.restart()
    tvl, us = update(H, other, what, t)
    save(H, other, tvl, us)
    H.restart()
    H.check(plain(got) == plain(states(H, other)), "content after garbage collection", what)
    H.check(not H.lock_held(realm), "not locked")


def shapes(H):
    """Stores built from objects directly: every combination of parts that may be absent."""
    P = H.M.MetadataPath
    realm = H.repo()
    tvl, us = H.M.TreeVersionList(), H.M.UUIDSet()
    level = H.pick("level", ["none", "empty", "run"])
    files = H.pick("files", ["none", "empty", "one", "deep"])
    where = H.pick("where", ["root", "sub", "list", "tree in list", "both"])
    ft = None
    if files != "none":
        ft = H.M.FileTree()
        for p in {"empty": (), "one": ("a",), "deep": ("a", "b/c/d", "b/e")}[files]:
            ft.add_metadata(P(p), meta(H, p))
    m = None if level == "none" else H.M.Metadata() if level == "empty" else meta(H, "l")
    r = H.M.MetadataRootRecord(uuid(1), "v", m, ft)
    dt = H.M.DatasetTree()
    vl = H.M.VersionList()
    if where in ("root", "both"):
        dt.add_dataset(P(""), r)
    if where == "sub":
        dt.add_dataset(P("s/t"), r)
    below = H.pick("prefix", ["", "p/q"]) if where in ("list", "tree in list") else ""
    if where in ("list", "both"):
        vl.set_versioned_element("1", "0", P(below), r)
    if where == "tree in list":
        t = H.M.DatasetTree()
        t.add_dataset(P("x"), r)
        vl.set_versioned_element("1", "0", P(below), t)
    tvl.set_dataset_tree("1", "0", P(below), dt)
    us.set_version_list(uuid(1), vl)
    save(H, realm, tvl, us, H.pick("order", ["tree first", "list first"]))
    H.restart()
    want = states(H, realm)
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", f"{level} {files} {where}")
    H.check(states(H, realm) == want, "content after garbage collection", f"{level} {files} {where}")
    # and once more, after another session changed a part
    H.restart()
    tvl, us = H.M.get_top_level_metadata_objects("git", realm)
    us.get_version_list(uuid(1)).set_versioned_element("2", "0", H.M.MetadataPath(""),
                                                       record(H, 2, files=("y",)))
    save(H, realm, tvl, us)
    H.restart()
    want = states(H, realm)
    H.restart()
    H.prune(realm)
    H.check(states(H, realm) == want, "content after a second session", f"{level} {files} {where}")


def two_stores(H):
    """Two stores written by one process."""
    a, b = H.repo(), H.repo()
    first_session(H, a, flush=False)
    between = H.bool("flushed before the second")
    if between:
        H.M.flush_object_references(Path(a))
    tvl, us = update(H, b, "new dataset", H.str("tag", 1))
    save(H, b, tvl, us, flush=False)
    order = [b] if between else [a, b] if H.bool("first store first") else [b, a]
    for x in order:
        H.M.flush_object_references(Path(x))
    for x in (a, b):
        H.restart()
        want = states(H, x)
        H.restart()
        H.prune(x)
        e = None
        try:
            got = states(H, x)
        except Exception as exc:
            e, got = exc, None
        H.check(e is None and got == want, "content of both stores after garbage collection",
                ("flushed first" if x == order[0] else "flushed last")
                + ("" if between else " of two stores that both had unflushed objects"))
