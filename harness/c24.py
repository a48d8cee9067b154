"""The stored format: stores of earlier releases are read and updated; what is written is in the same format.

The harness writes and reads the git objects itself, field by field."""
import json
from pathlib import Path

from harness.top import add_run, save
from harness.util import meta, mrr_state, record, runs, same_runs, uuid, uuid_state, version_state

VERSION = "2.0"
TREES = "refs/datalad/dataset-tree-version-list"
SETS = "refs/datalad/dataset-uuid-set"
OBJECTS = "refs/datalad/object-references-2.0"


class Writer:
    """Writes objects in the stored format"""

    def __init__(self, H, realm, extra=None):
        self.H, self.realm, self.extra = H, realm, extra
        self.blobs, self.trees = [], []

    def blob(self, obj):
        rc, out = self.H.git(self.realm, "hash-object", "-w", "--stdin", stdin=json.dumps(obj).encode())
        self.blobs.append(out.decode().strip())
        return self.blobs[-1]

    def tree(self, entries):
        """entries: {name: (kind, oid)}"""
        text = "".join(f"{'040000' if k == 'tree' else '100644'} {k} {o}\t{n}\n" for n, (k, o) in entries.items())
        rc, out = self.H.git(self.realm, "mktree", stdin=text.encode())
        self.trees.append(out.decode().strip())
        return self.trees[-1]

    def keep(self, former):
        """Record all objects, so that they are not collected"""
        blobs, trees = set(self.blobs), set(self.trees)
        if former:
            for oids, kind, name in ((blobs, "blob", "blobs"), (trees, "tree", "trees")):
                self.H.git(self.realm, "update-ref", "refs/datalad/object-references/" + name,
                           self.tree({"object_reference:" + o: (kind, o) for o in oids}))
            return
        top = {}
        for kind, oids in (("blob", blobs), ("tree", trees)):
            for o in oids:
                top.setdefault(o[:3], {}).setdefault(o[3:6], {}).setdefault(o[6:9], {})[o[9:]] = (kind, o)

        def put(x):
            return self.tree({k: v if isinstance(v, tuple) else ("tree", put(v)) for k, v in x.items()})
        self.H.git(self.realm, "update-ref", OBJECTS, put(top))

    def head(self, kind):
        return {"@": {"type": kind, "version": VERSION}}

    def reference(self, cls, location):
        out = self.head("Reference")
        out["class_name"] = cls
        out["location"] = location
        if self.extra is not None:
            out["mapper_family"] = "git"
            out["realm"] = self.extra
        return out

    def metadata(self, rs):
        """rs: {extractor: [(version, parameter, time stamp, author, mail, content)]}; the blob that
        refers to the metadata"""
        sets = {}
        for e, xs in rs.items():
            s = self.head("MetadataInstanceSet")
            s["parameter_set"], s["instance_set"] = [], {}
            for i, (v, p, ts, a, m, c) in enumerate(xs):
                conf = self.head("ExtractorConfiguration")
                conf["version"], conf["parameter"] = v, p
                s["parameter_set"].append(conf)
                inst = self.head("MetadataInstance")
                inst["time_stamp"], inst["author"], inst["author_email"] = ts, a, m
                inst["configuration"], inst["metadata_content"] = conf, c
                s["instance_set"][str(i)] = inst
            sets[e] = s
        out = self.head("Metadata")
        out["instance_sets"] = sets
        return self.blob(self.reference("Metadata", self.blob(out)))

    def record(self, ident, version, level, file_class, files):
        return self.blob({
            **({} if self.extra is None else {"more": self.extra}),
            "dataset_identifier": ident, "dataset_version": version,
            "dataset_level_metadata": self.reference("Metadata", level or "*None*"),
            "file_tree": self.reference(file_class, files or "*None*")})

    def list(self, entries):
        more = {} if self.extra is None else {"more": self.extra}
        return self.blob([{**more, "primary_data_version": v, "time_stamp": ts, "path": p, "dataset_tree": ref}
                          for v, ts, p, ref in entries])


def reading(H):
    """A store that the harness wrote."""
    realm = H.repo()
    P = H.M.MetadataPath
    old = H.bool("former notation")
    extra = H.str("realm", 1) if old and H.bool("additional fields") else None
    w = Writer(H, realm, extra)
    t = H.str("text", 1)
    two = {"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": t}),
                  ("2", {"p": ["x", None]}, 2, "n2", "m2", {"tag": "second"})],
           "other": [("1", {}, 0, "name", "mail", {"tag": "o"})]}
    level = w.metadata(two) if H.bool("level") else None
    files = None
    ftags = []
    if H.bool("files"):
        one = w.metadata({"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": "f" + t})]})
        sub = w.tree({"b": ("blob", one)})
        files = w.tree({"a": ("blob", one), "d": ("tree", sub)})
        ftags = [("a", [("ex", "1", "f" + t)]), ("d/b", [("ex", "1", "f" + t)])]
    r = w.record(str(uuid(1)), "v" + t, level, "FileTree" if old else "MTreeNode", files)
    r2 = w.record(str(uuid(2)), "w", None, "FileTree", None)
    deep = w.tree({".datalad_metadata_root_record": ("blob", r2)})
    tree = w.tree({".datalad_metadata_root_record": ("blob", r), "s": ("tree", w.tree({"t": ("tree", deep)}))})
    tl = w.list([("v" + t, "10", "", w.reference("DatasetTree" if old else "MTreeNode", tree)),
                 ("v" + t, "11", "p/q", w.reference("MTreeNode", deep))])
    l1 = w.list([("v" + t, "10", "", w.reference("MetadataRootRecord", r))])
    l2 = w.list([("w", "10", "", w.reference("MetadataRootRecord", r2))])
    us = w.tree({str(uuid(1)): ("blob", l1), str(uuid(2)): ("blob", l2)})
    H.git(realm, "update-ref", TREES, tl)
    H.git(realm, "update-ref", SETS, us)
    w.keep(old)
    levels = None if level is None else sorted(
        [("ex", "1", t), ("ex", "2" + str(["x", None]), "second"), ("other", "1", "o")])
    one = (str(uuid(1)), "v" + t, levels, ftags)
    two_ = (str(uuid(2)), "w", None, [])

    def compare(want_level, want_files, what):
        H.restart()
        P = H.M.MetadataPath
        tvl, us = H.M.get_top_level_metadata_objects("git", realm)
        H.check(tvl is not None and us is not None, "both are found", what)
        H.check([(v, str(p)) for v, p in tvl.versions_and_prefix_paths()] == [("v" + t, ""), ("v" + t, "p/q")],
                "versions", what)
        ts, p, dt = tvl.get_dataset_tree("v" + t, P(""))
        H.check(ts == "10" and sorted(str(x) for x, _ in dt.dataset_paths) == ["", "s/t"], "datasets", what)
        x = dt.get_metadata_root_record(P(""))
        _is(H, x, uuid(1), "v" + t, want_level, want_files, what)
        _is(H, dt.get_metadata_root_record(P("s/t")), uuid(2), "w", None, [], what)
        ts, p, dt = tvl.get_dataset_tree("v" + t, P("p/q"))
        H.check(ts == "11", "time stamp", what)
        _is(H, dt.get_metadata_root_record(P("")), uuid(2), "w", None, [], what)
        H.check(sorted(str(u) for u in us.uuids()) == [str(uuid(1)), str(uuid(2))], "ids", what)
        ts, p, x = us.get_version_list(uuid(1)).get_versioned_element("v" + t, P(""))
        _is(H, x, uuid(1), "v" + t, want_level, want_files, what)
        ts, p, x = us.get_version_list(uuid(2)).get_versioned_element("w", P(""))
        _is(H, x, uuid(2), "w", None, [], what)
        return tvl, us
    want_level = None if level is None else two
    want_files = [] if files is None else ["a", "d/b"]
    ftag = "f" + t
    tvl, us = compare(want_level, [(p, ftag) for p in want_files], "as written")
    # an update of that store
    H.restart()
    P = H.M.MetadataPath
    tvl, us, x = H.M.get_top_nodes_and_metadata_root_record(
        "git", realm, uuid(1), "v" + t, P(""), P(""), None, None, False)
    what = H.pick("change", ["nothing", "level", "file", "new file"])
    if what == "level":
        if level is None:
            x.set_dataset_level_metadata(meta(H, "new"))
            want_level = {"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": "new"})]}
        else:
            x.get_dataset_level_metadata().add_extractor_run(
                1.5, "more", "name", "mail", H.M.ExtractorConfiguration("1", {}), {"tag": "new"})
            want_level = dict(two)
            want_level["more"] = [("1", {}, 1.5, "name", "mail", {"tag": "new"})]
    after = [(p, ftag) for p in want_files]
    if what in ("file", "new file"):
        if files is None:
            x.set_file_tree(H.M.FileTree())
        path = "d/b" if what == "file" else "d/n"
        add_run(H, x, path, "new")
        after = [(p, g) for p, g in after if p != path] + [(path, "new")]
    save(H, realm, tvl, us)
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", what)
    compare(want_level, after, what)


def _is(H, r, ident, version, level, files, what):
    H.check(r is not None and r.dataset_identifier == ident and r.dataset_version == version, "record", what)
    m = r.get_dataset_level_metadata()
    H.check((m is None) == (level is None), "dataset-level metadata is there", what)
    if level is not None:
        H.check(same_runs(runs(m), level), "dataset-level metadata", what)
    ft = r.get_file_tree()
    got = [] if ft is None else [str(p) for p, _ in ft.get_paths_recursive()]
    H.check(sorted(got) == sorted(p for p, _ in files), "files", what)
    for p, g in files:
        m = ft.get_metadata(H.M.MetadataPath(p))
        H.check(same_runs(runs(m), {"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": g})]}),
                "file metadata", what)


class Reader:
    """Reads objects in the stored format"""

    def __init__(self, H, realm):
        self.H, self.realm = H, realm

    def json(self, oid):
        rc, out = self.H.git(self.realm, "cat-file", "blob", oid)
        self.H.check(rc == 0, "the object is there")
        return json.loads(out.decode())

    def tree(self, oid):
        rc, out = self.H.git(self.realm, "ls-tree", oid)
        self.H.check(rc == 0, "the tree is there")
        res = {}
        for line in out.decode().splitlines():
            fields, name = line.split("\t")
            flag, kind, o = fields.split(" ")
            self.H.check((flag, kind) in (("100644", "blob"), ("040000", "tree")), "kind of a tree entry")
            res[name] = (kind, o)
        return res

    def header(self, obj, kind, fields):
        self.H.check(obj["@"] == {"type": kind, "version": VERSION}, "header", kind)
        self.H.check(set(obj) >= set(fields) | {"@"}, "fields", kind)

    def reference(self, obj, kind):
        self.header(obj, "Reference", ["class_name", "location"])
        self.H.check(obj["class_name"] == kind, "class of a reference", kind)
        return None if obj["location"] == "*None*" else obj["location"]

    def metadata(self, oid):
        obj = self.json(self.reference(self.json(oid), "Metadata"))
        self.header(obj, "Metadata", ["instance_sets"])
        out = {}
        for e, s in obj["instance_sets"].items():
            self.header(s, "MetadataInstanceSet", ["parameter_set", "instance_set"])
            self.H.check(len(s["parameter_set"]) == len(s["instance_set"]), "one run for each configuration")
            out[e] = []
            for k, i in s["instance_set"].items():
                self.header(i, "MetadataInstance", ["time_stamp", "author", "author_email", "configuration",
                                                    "metadata_content"])
                c = i["configuration"]
                self.header(c, "ExtractorConfiguration", ["version", "parameter"])
                self.H.check(s["parameter_set"][int(k)] == c, "runs are numbered as their configurations")
                out[e].append((c["version"], c["parameter"], i["time_stamp"], i["author"], i["author_email"],
                               i["metadata_content"]))
        return out

    def files(self, oid, prefix=""):
        out = {}
        for name, (kind, o) in self.tree(oid).items():
            if kind == "tree":
                out.update(self.files(o, prefix + name + "/"))
            else:
                out[prefix + name] = self.metadata(o)
        return out

    def record(self, oid):
        obj = self.json(oid)
        self.H.check(set(obj) >= {"dataset_identifier", "dataset_version", "dataset_level_metadata", "file_tree"},
                     "fields of a record")
        level = self.reference(obj["dataset_level_metadata"], "Metadata")
        cls = obj["file_tree"]["class_name"]
        self.H.check(cls in ("MTreeNode", "FileTree"), "class of a file tree")
        files = self.reference(obj["file_tree"], cls)
        return (obj["dataset_identifier"], obj["dataset_version"], None if level is None else self.metadata(level),
                {} if files is None else self.files(files))

    def list(self, oid):
        return [(x["primary_data_version"], x["time_stamp"], x["path"], x["dataset_tree"]) for x in self.json(oid)]


def writing(H):
    """A store that the package wrote, field by field."""
    realm = H.repo()
    P = H.M.MetadataPath
    t = H.str("text", 1)
    tvl, us = H.M.TreeVersionList(), H.M.UUIDSet()
    level = H.pick("level", ["none", "two"])
    m = None
    rs = {}
    if level == "two":
        m = H.M.Metadata()
        for e, v, p, ts in (("ex", "1", {"p": t}, 1.5), ("ex", "2", {"p": "x"}, 2), ("other", "1", {}, 0)):
            m.add_extractor_run(ts, e, "name" + t, "mail" + t, H.M.ExtractorConfiguration(v, p), {"tag": t})
            rs.setdefault(e, []).append((v, p, ts, "name" + t, "mail" + t, {"tag": t}))
    paths = H.pick("files", [None, ["a"], ["a", "d/b", "d/e/c"]])
    ft = None
    if paths is not None:
        ft = H.M.FileTree()
        for p in paths:
            ft.add_metadata(P(p), meta(H, t + p))
    r = H.M.MetadataRootRecord(uuid(1), "v" + t, m, ft)
    r2 = record(H, 2, files=None, dataset_metadata=False)
    dt = H.M.DatasetTree()
    dt.add_dataset(P(""), r)
    dt.add_dataset(P("s/t"), r2)
    prefix = H.pick("prefix", ["", "p/q"])
    tvl.set_dataset_tree("v" + t, "10", P(prefix), dt)
    vl = H.M.VersionList()
    vl.set_versioned_element("v" + t, "11", P(prefix), r)
    vl.set_versioned_element("other", "12", P("o"), r2)
    us.set_version_list(uuid(1), vl)
    if H.bool("empty list"):
        us.set_version_list(uuid(2), H.M.VersionList())
    save(H, realm, tvl, us)
    if H.bool("and again"):
        H.restart()
        tvl, us = H.M.get_top_level_metadata_objects("git", realm)
        tvl.get_dataset_tree("v" + t, H.M.MetadataPath(prefix))[2].get_metadata_root_record(
            H.M.MetadataPath("s/t")).set_dataset_level_metadata(meta(H, "later"))
        save(H, realm, tvl, us)
        later = {"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": "later"})]}
    else:
        later = None
    rd = Reader(H, realm)

    def ref(name):
        rc, out = H.git(realm, "rev-parse", name)
        H.check(rc == 0, "the reference is there", name)
        return out.decode().strip()

    def is_record(oid, want):
        got = rd.record(oid)
        H.check(got[0] == want[0] and got[1] == want[1], "identification")
        H.check((got[2] is None) == (want[2] is None), "dataset-level metadata is there")
        if want[2] is not None:
            H.check(same_runs(got[2], want[2]), "dataset-level metadata")
        H.check(sorted(got[3]) == sorted(want[3]), "files")
        for k in want[3]:
            H.check(same_runs(got[3][k], want[3][k]), "file metadata")
    want = (str(uuid(1)), "v" + t, rs if m is not None else None,
            {p: {"ex": [("1", {"p": "x"}, 1.5, "name", "mail", {"tag": t + p})]} for p in paths or []})
    (v, ts, p, tree), = rd.list(ref(TREES))
    H.check(v == "v" + t and ts == "10" and p == prefix, "entry of the list of trees", p)
    H.check(tree["class_name"] in ("MTreeNode", "DatasetTree"), "class of a dataset tree")
    top = rd.tree(rd.reference(tree, tree["class_name"]))
    H.check(sorted(top) == [".datalad_metadata_root_record", "s"], "dataset tree")
    is_record(top[".datalad_metadata_root_record"][1], want)
    sub = rd.tree(rd.tree(top["s"][1])["t"][1])
    H.check(list(sub) == [".datalad_metadata_root_record"], "sub-dataset")
    is_record(sub[".datalad_metadata_root_record"][1], (str(uuid(2)), "v2", later, {}))
    ids = rd.tree(ref(SETS))
    H.check(ids[str(uuid(1))][0] == "blob" and len(ids) in (1, 2), "ids")
    entries = rd.list(ids[str(uuid(1))][1])
    H.check([(v, ts, p) for v, ts, p, _ in entries] == [("v" + t, "11", prefix), ("other", "12", "o")],
            "entries of the version list")
    is_record(rd.reference(entries[0][3], "MetadataRootRecord"), want)
    is_record(rd.reference(entries[1][3], "MetadataRootRecord"), (str(uuid(2)), "v2", None, {}))
    if len(ids) == 2:
        H.check(rd.list(ids[str(uuid(2))][1]) == [], "empty version list")
    # recorded objects: directories of 3, 3, 3 digits, and the rest
    objects = rd.tree(ref(OBJECTS))
    for a, (k, o) in objects.items():
        for b, (k, o) in rd.tree(o).items():
            for c, (k, o) in rd.tree(o).items():
                for d, (k, o) in rd.tree(o).items():
                    H.check(a + b + c + d == o and len(a) == len(b) == len(c) == 3, "recorded objects")
