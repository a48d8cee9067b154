"""Working with a part of a store does not read or write the other parts."""
import json
from pathlib import Path

from harness.top import add_run, nodes, save, sub_nodes
from harness.util import tag, uuid

FILES = ("a", "d/b", "d/e/c", "x/y")
RECORDS = [("1", ""), ("1", "sub/ds"), ("2", "")]


def _build(H, realm):
    tvl, us, r = nodes(H, realm, 1, "1")
    _fill(H, r, "1")
    save(H, realm, tvl, us)
    H.restart()
    tvl, us, r = sub_nodes(H, realm, 3, "s1", "sub/ds", 1, "1")
    _fill(H, r, "3")
    save(H, realm, tvl, us)
    H.restart()
    tvl, us, r = nodes(H, realm, 1, "2")
    _fill(H, r, "2")
    save(H, realm, tvl, us)
    H.restart()


def _fill(H, r, t):
    for p in (None,) + FILES:
        add_run(H, r, p, f"{t}:{p}")


def _inner(H, realm, oid):
    rc, out = H.git(realm, "cat-file", "blob", oid)
    return json.loads(out.decode())["location"]


def _map(H, realm):
    """{object name: set of the (version, dataset, item) that need it}"""
    P = H.M.MetadataPath
    need = {}

    def note(oid, item):
        need.setdefault(oid, set()).add(item)

    def note_tree(node, inside):
        for item in inside:
            note(node.reference.location, item)
    tvl, us = H.M.get_top_level_metadata_objects("git", realm)
    for v in ("1", "2"):
        dt = tvl.get_dataset_tree(v, P(""))[2]
        for w, ds in RECORDS:
            if w != v:
                continue
            r = dt.get_metadata_root_record(P(ds))
            items = [(v, ds, None)] + [(v, ds, f) for f in FILES]
            for item in items:
                node = dt.mtree
                note(node.reference.location, item)
                for e in P(ds).parts:
                    node = node.get_child(e)
                    note(node.reference.location, item)
                note(r.reference.location, item)
            m = r.get_dataset_level_metadata()
            note(m.reference.location, items[0])
            note(_inner(H, realm, m.reference.location), items[0])
            ft = r.get_file_tree()
            for f in FILES:
                item = (v, ds, f)
                node = ft.mtree
                note(node.reference.location, item)
                for e in P(f).parts:
                    node = node.get_child(e)
                    node.ensure_mapped()
                    note(node.reference.location, item)
                note(_inner(H, realm, node.reference.location), item)
    H.restart()
    return need


def reading(H):
    """Looking at items reads what leads to them only."""
    realm = H.repo()
    _build(H, realm)
    need = _map(H, realm)
    P = H.M.MetadataPath
    looked = []
    seen = []
    H.on_command(lambda k, words: seen.append(words))
    tvl, us = H.M.get_top_level_metadata_objects("git", realm)
    for i in range(H.int("items", 1, H.bound("items", 2))):
        v, ds = H.pick("record", RECORDS)
        f = H.pick("file", (None,) + FILES)
        r = tvl.get_dataset_tree(v, P(""))[2].get_metadata_root_record(P(ds))
        if f is None:
            m = r.get_dataset_level_metadata()
        else:
            m = r.get_file_tree().get_metadata(P(f))
        H.check(tag(m) == f"{'3' if ds else v}:{f}", "the right item")
        looked.append((v, ds, f))
        _check(H, need, seen, looked, "only what leads to the items is read")
    H.on_command(None)


def lists(H):
    """Looking at entries of version lists reads what belongs to these entries only."""
    from harness.util import meta, record
    realm = H.repo()
    P, M = H.M.MetadataPath, H.M
    tree = H.bool("tree version list")
    name = "TreeVersionList" if tree else "VersionList"
    vl = getattr(M, name)()
    entries = [("1", ""), ("1", "p"), ("1", "p/q"), ("2", ""), ("2", "p")]
    owners = {}
    nested = not tree and H.bool("with trees")

    def note(oid, k):
        owners.setdefault(oid, set()).add(k)

    for k, (v, p) in enumerate(entries):
        r = record(H, k + 1, files=("f",))
        el = r
        if tree or nested:
            el = M.DatasetTree()
            el.add_dataset(P("s"), r)
        vl.set_versioned_element(v, str(k), P(p), el)
    us = M.UUIDSet()
    in_set = not tree and H.bool("in a set")
    if in_set:
        us.set_version_list(uuid(1), vl)
        other = M.VersionList()
        other.set_versioned_element("1", "0", P(""), record(H, 9, files=("g",)))
        us.set_version_list(uuid(2), other)
        ref = us.write_out(realm)
    else:
        ref = vl.write_out(realm)
    if in_set:
        note(us.get_version_list(uuid(2)).reference.location, "other list")
    for k, (v, p) in enumerate(entries):
        el = vl.get_versioned_element(v, P(p))[2]
        note(el.reference.location, k)
        if tree or nested:
            el = el.get_metadata_root_record(P("s"))
            note(el.reference.location, k)
        note(el.get_dataset_level_metadata().reference.location, k)
        note(el.get_file_tree().reference.location, k)
    H.restart()
    P, M = H.M.MetadataPath, H.M
    seen = []
    if in_set:
        us = M.UUIDSet(None, realm, M.Reference("UUIDSet", ref.location))
        H.on_command(lambda k, words: seen.append(words))
        vl = us.get_version_list(uuid(1))
    else:
        vl = getattr(M, name)(None, realm, M.Reference(name, ref.location))
        H.on_command(lambda k, words: seen.append(words))
    how = H.pick("listed by", ["nothing", "versions and paths", "versions", "entries"])
    if how == "versions and paths":
        got = sorted((v, str(p)) for v, p in vl.versions_and_prefix_paths())
        H.check(got == sorted(entries), "all entries are listed")
    elif how == "versions":
        H.check(sorted(set(vl.versions())) == ["1", "2"], "all versions are listed")
    elif how == "entries":
        H.check(sorted((v, str(e[1])) for v, e in vl.versioned_elements) == sorted(entries),
                "all entries are listed")
    H.check(not any(w in owners for words in seen for w in words), "listing reads no entry")
    looked = set()
    for i in range(H.bound("looks", 2)):
        k = H.int("entry", 0, len(entries) - 1)
        looked.add(k)
        v, p = entries[k]
        ts, pp, el = vl.get_versioned_element(v, P(p))
        H.check(ts == str(k) and str(pp) == p, "the right entry")
        if tree or nested:
            el = el.get_metadata_root_record(P("s"))
        H.check(el.dataset_version == f"v{k + 1}", "the right record")
        if i == 0:
            part = H.pick("part", ["record", "metadata", "files"])
        if part == "metadata":
            H.check(tag(el.get_dataset_level_metadata()) == f"d{k + 1}", "the right content")
        elif part == "files":
            H.check(tag(el.get_file_tree().get_metadata(P("f"))) == f"{k + 1}:f", "the right content")
        for words in seen:
            for w in words:
                if w in owners:
                    H.check(owners[w] & looked, "only what belongs to the entries is read")
    H.on_command(None)


def _check(H, need, seen, items, label):
    for words in seen:
        for w in words:
            if w in need:
                H.check(any(i in need[w] for i in items), label)


def changing(H):
    """A change of one item, saved: nothing else is read or written again."""
    realm = H.repo()
    _build(H, realm)
    need = _map(H, realm)
    P = H.M.MetadataPath
    v, ds = H.pick("record", RECORDS)
    f = H.pick("file", (None,) + FILES)
    t = H.str("tag", 1, 1, "abc")
    seen = []
    H.on_command(lambda k, words: seen.append(words))
    if ds:
        tvl, us, r = sub_nodes(H, realm, 3, "s1", ds, 1, "1")
    else:
        tvl, us, r = nodes(H, realm, 1, v)
    add_run(H, r, f, t, version="2")
    tvl.write_out(realm)
    us.write_out(realm)
    # the root record of a changed sub-dataset is looked up, too
    items = [(v, ds, f)] + ([("1", "", None)] if ds else [])
    inner = {o for o in need if (v, ds, f) not in need[o]}
    root_level = [o for o in inner if ds and ("1", "", None) in need[o]]
    _check(H, need, seen, items, "only what leads to the item is read")
    n = H.commands()
    tvl.write_out(realm)
    us.write_out(realm)
    H.check(H.commands() == n, "what is saved is not written again")
    H.on_command(None)
    H.M.flush_object_references(Path(realm))
    H.restart()
    tvl, us = H.M.get_top_level_metadata_objects("git", realm)
    for w, d in RECORDS:
        r = tvl.get_dataset_tree(w, P(""))[2].get_metadata_root_record(P(d))
        for g in (None,) + FILES:
            m = r.get_dataset_level_metadata() if g is None else r.get_file_tree().get_metadata(P(g))
            runs = [i.metadata_content["tag"] for n, s in m.extractor_runs for i in s]
            H.check(len(runs) == (2 if (w, d, g) == (v, ds, f) else 1), "exactly this item is changed")


def unchanged(H):
    """Storing what was not changed since it was stored or loaded writes nothing."""
    from harness.c09 import KINDS, load, make, state
    kind = H.pick("kind", KINDS)
    realm = H.repo()
    x = make(H, kind)
    ref = x.write_out(realm)
    how = H.pick("how", ["stored", "purged", "loaded again", "another object", "looked at"])
    if how in ("purged", "loaded again"):
        x.purge()
    if how == "loaded again":
        x.read_in()
    if how in ("another object", "looked at"):
        H.restart()
        x = load(H, kind, realm, ref)
    if how == "looked at":
        state(H, kind, x)
    seen = []
    H.on_command(lambda k, words: seen.append(words))
    r = x.write_out(realm)
    for words in seen:
        # an empty list of files is no content
        H.check("--stdin-paths" in words and kind == "FileTree", "nothing is written again", kind)
    n = len(seen)
    H.check(r.location == ref.location and r.class_name == ref.class_name, "the same reference", kind)
    x.purge()
    H.check(len(seen) == n, "unloading writes nothing", kind)
