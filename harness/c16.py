"""Data of another format version or of another kind is refused, not misread."""
import json

from harness.util import meta, record, run, uuid


def _objects(H):
    M = H.M
    c = M.ExtractorConfiguration("1", {"p": "x"})
    i = M.MetadataInstance(1, "a", "m", c, {"k": "v"})
    m = M.Metadata()
    run(H, m, "t")
    run(H, m, "u", extractor="other")
    from pathlib import Path
    bare = M.ExtractorConfiguration("", {})
    return {
        "bare configuration": (bare, M.ExtractorConfiguration),
        "bare instance": (M.MetadataInstance(0, "", "", bare, {}), M.MetadataInstance),
        "empty set": (M.MetadataInstanceSet(), M.MetadataInstanceSet),
        "empty metadata": (M.Metadata(), M.Metadata),
        "none reference": (M.Reference.get_none_reference("Metadata"), M.Reference),
        "empty source": (M.ImmediateMetadataSource({}), M.ImmediateMetadataSource),
        "configuration": (c, M.ExtractorConfiguration),
        "instance": (i, M.MetadataInstance),
        "set": (M.MetadataInstanceSet([i]), M.MetadataInstanceSet),
        "metadata": (m, M.Metadata),
        "reference": (M.Reference("Metadata", "loc"), M.Reference),
        "git source": (M.LocalGitMetadataSource(Path("/x/y"), "ref"), M.LocalGitMetadataSource),
        "immediate source": (M.ImmediateMetadataSource({"a": 1}), M.ImmediateMetadataSource),
    }


NAMES = ["configuration", "instance", "set", "metadata", "reference", "git source", "immediate source",
         "bare configuration", "bare instance", "empty set", "empty metadata", "none reference", "empty source"]
TYPES = ["ExtractorConfiguration", "MetadataInstance", "MetadataInstanceSet", "Metadata", "Reference",
         "LocalGitMetadataSource", "ImmediateMetadataSource", "Text"]


def _headers(x, out):
    """All headers of a serialised object, the object's own first"""
    if isinstance(x, dict):
        if "@" in x:
            out.append(x)
        for k, v in x.items():
            if k != "@":
                _headers(v, out)
    elif isinstance(x, list):
        for v in x:
            _headers(v, out)
    return out


def _alter(H, obj):
    """Change one header of a serialised object; whether it still is what it was"""
    headers = _headers(obj, [])
    h = headers[H.int("header", 0, len(headers) - 1)]
    what = H.pick("what", ["version", "type", "no version", "no type", "no header", "around the version",
                          "around the type"])
    if what in ("around the version", "around the type"):
        # the right text with something before and after it
        key = what.split()[-1]
        before, after = H.str("before", 1), H.str("after", 1)
        h["@"][key] = before + h["@"][key] + after
        return before == "" and after == ""
    if what == "version":
        s = H.str("version", H.bound("len", 3))
        same = s == h["@"]["version"]
        h["@"]["version"] = s
        return same
    if what == "type":
        s = H.pick("type", TYPES + [None])
        if s is None:
            s = H.str("type text", 2)
        same = s == h["@"]["type"]
        h["@"]["type"] = s
        return same
    if what == "no header":
        del h["@"]
    else:
        del h["@"]["version" if what == "no version" else "type"]
    return False


def parse(H):
    """Every object that is read from JSON text."""
    name = H.pick("object", NAMES)
    x, cls = _objects(H)[name]
    text = x.to_json() if name.endswith("metadata") else x.to_json_str()
    obj = json.loads(text)
    same = _alter(H, obj)
    got = []

    def read():
        if name.endswith("metadata"):
            got.append(cls.from_json(json.dumps(obj)))
        elif H.bool("text"):
            got.append(cls.from_json_str(json.dumps(obj)))
        else:
            got.append(cls.from_json_obj(obj))
    e = H.raises(read)
    accepted = e is None and got[0] is not None
    H.check(accepted == same, "accepted exactly if kind and version are right", name)
    if accepted:
        H.check(got[0] == x, "content", name)
        H.reach("accepted")
    else:
        H.reach("refused")


def stored(H):
    """The same for objects in a store: a blob of another version cannot be loaded."""
    P = H.M.MetadataPath
    realm = H.repo()
    what = H.pick("object", ["metadata", "metadata reference", "record", "list", "tree list"])
    r = record(H, 1, files=("f",))
    vl = H.M.VersionList()
    vl.set_versioned_element("1", "0", P(""), r)
    dt = H.M.DatasetTree()
    dt.add_dataset(P(""), r)
    tvl = H.M.TreeVersionList()
    tvl.set_dataset_tree("1", "0", P(""), dt)
    m = meta(H, "t")
    ref = {"metadata": m, "metadata reference": m, "record": r, "list": vl, "tree list": tvl}[what] \
        .write_out(realm)
    rc, out = H.git(realm, "cat-file", "blob", ref.location)
    location = ref.location
    if what == "metadata":
        inner = json.loads(out.decode())
        rc, out = H.git(realm, "cat-file", "blob", inner["location"])
    obj = json.loads(out.decode())
    same = _alter(H, obj)

    def put(o):
        rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=json.dumps(o).encode())
        return out.decode().strip()
    location = put(obj)
    if what == "metadata":
        inner["location"] = location
        location = put(inner)
    H.restart()
    R = H.M.Reference
    if what in ("metadata", "metadata reference"):
        y = H.M.Metadata(realm, R("Metadata", location))
        f = y.read_in
    elif what == "record":
        y = H.M.MetadataRootRecord(None, None, None, None, realm, R("MetadataRootRecord", location))
        f = y.read_in
    elif what == "list":
        y = H.M.VersionList(None, realm, R("VersionList", location))
        f = lambda: y.get_versioned_element("1", H.M.MetadataPath(""))
    else:
        y = H.M.TreeVersionList(None, realm, R("TreeVersionList", location))
        f = lambda: y.get_dataset_tree("1", H.M.MetadataPath(""))
    e = H.raises(f)
    H.check((e is None) == same, "loaded exactly if kind and version are right", what)
    if e is not None:
        H.check(not y.mapped, "an object that was refused does not count as loaded", what)


def sources(H):
    """Descriptions of sources of an unknown kind."""
    x = H.pick("source", ["git source", "immediate source"])
    obj = json.loads(_objects(H)[x][0].to_json_str())
    M = H.M
    own = obj[M.MetadataSource.TYPE_KEY]
    what = H.pick("what", ["kind", "text", "missing", "missing field", "nothing"])
    if what == "kind":
        obj[M.MetadataSource.TYPE_KEY] = H.pick("kind", ["LocalGitMetadataSource",
                                                          "ImmediateMetadataSource"])
    elif what == "text":
        obj[M.MetadataSource.TYPE_KEY] = H.str("kind text", 2)
    elif what == "missing":
        del obj[M.MetadataSource.TYPE_KEY]
    elif what == "missing field":
        keys = [k for k in obj if k not in ("@", M.MetadataSource.TYPE_KEY)]
        del obj[keys[H.int("field", 0, len(keys) - 1)]]
    right = what == "nothing" or what == "kind" and obj[M.MetadataSource.TYPE_KEY] == own
    got = []
    e = H.raises(lambda: got.append(M.MetadataSource.from_json_obj(obj)))
    H.check((e is None and got[0] is not None) == right, "accepted exactly if the kind is known", what)
    if what in ("text", "missing", "missing field"):
        H.check(e is None and got[0] is None, "an unknown kind is no source", what)
    if right:
        H.check(got[0] == _objects(H)[x][0], "content")
