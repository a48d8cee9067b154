"""Metadata sources: their descriptions, and the content they stand for."""
import json
from pathlib import Path


def _blob(H, realm, content):
    return H.git(realm, "hash-object", "-w", "--stdin", stdin=content)[1].decode().strip()


def described_git(H):
    """The description of a source in a git repository."""
    M = H.M
    path = Path(H.pick("start", ["/", "", "../", "./a"]) + H.str("path", H.bound("len", 2), alpha="printname"))
    s = H.str("reference", H.bound("len", 2))
    x = M.LocalGitMetadataSource(path, s)
    H.check(x.object_reference == s.strip(), "the reference without surrounding white space")
    which = H.bool("by its own class")
    f = M.LocalGitMetadataSource if which else M.MetadataSource
    y = f.from_json_str(x.to_json_str()) if H.bool("text") else f.from_json_obj(x.to_json_obj())
    H.check(isinstance(y, M.LocalGitMetadataSource), "kind")
    H.check(y.git_repository_path == path and y.object_reference == s.strip(), "round trip")
    H.check(x == y and not (x != y), "equal after a round trip")
    other = M.LocalGitMetadataSource(Path("/" + H.str("other path", 1, alpha="abc")),
                                     H.str("other reference", 1, alpha="abc"))
    H.check((x == other) == (path == other.git_repository_path and s.strip() == other.object_reference),
            "equal exactly if place and reference are")
    H.check(x != M.ImmediateMetadataSource({"a": 1}), "different from another kind")
    H.observe([y.object_reference])


def _value(H, depth):
    k = H.pick("kind", ["text", "number", "bool", "none"] + (["list", "object"] if depth else []))
    if k == "text":
        return H.str("text", H.bound("len", 1))
    if k == "number":
        return H.pick("number", [0, -1, 1.5, 10 ** 20])
    if k == "bool":
        return H.bool("truth")
    if k == "none":
        return None
    if k == "list":
        return [_value(H, depth - 1) for _ in range(H.int("items", 0, 2))]
    return {H.str("key", 1): _value(H, depth - 1)} if H.bool("filled") else {}


def described_immediate(H):
    """The description of a source that holds its content, and the content written to a file."""
    M = H.M
    v = _value(H, H.bound("depth", 1))
    content = {"k": v} if H.bool("object") else v
    x = M.ImmediateMetadataSource(content)
    f = M.ImmediateMetadataSource if H.bool("by its own class") else M.MetadataSource
    y = f.from_json_str(x.to_json_str()) if H.bool("text form") else f.from_json_obj(x.to_json_obj())
    H.check(isinstance(y, M.ImmediateMetadataSource), "kind")
    H.check(y.content == content and type(y.content) is type(content), "round trip")
    H.check(x == y, "equal after a round trip")
    out = H.open_file("out", "w")
    y.write_object_to(out)
    H.check(json.loads(H.file_bytes(out).decode()) == content, "the content is what is written")


def copied_immediate(H):
    """Copies share nothing."""
    M = H.M
    v = H.str("text", 1)
    content = {"a": {"b": [v]}, "c": v}
    x = M.ImmediateMetadataSource(content)
    y = x.deepcopy()
    H.check(x == y, "a copy is equal")
    which = H.pick("change", ["nested", "list", "top"])
    w = H.str("new text", 1)
    if which == "nested":
        y.content["a"]["new"] = w
    elif which == "list":
        y.content["a"]["b"].append(w)
    else:
        y.content["c"] = w
    H.check(x.content == {"a": {"b": [v]}, "c": v}, "changing a copy does not change the original")
    H.check((x == y) == (which == "top" and v == w), "equal exactly if the content is")


NAMES = ["plain", "with space", "quo'te", 'dou"ble', "a;b", "$(x)", "ümlaut", "-dash"]


def git_content(H):
    """Reading and copying an object of a git repository."""
    M = H.M
    src, dst = H.repo(H.pick("name of the source", NAMES)), H.repo(H.pick("name of the destination", NAMES[:3]))
    content = H.bytes("content", H.bound("len", 3))
    oid = _blob(H, src, content)
    pad = H.pick("padding", ["", "\n", " "])
    x = M.LocalGitMetadataSource(Path(src), oid + pad)
    if H.bool("described"):
        x = M.MetadataSource.from_json_str(x.to_json_str())
    what = H.pick("what", ["write", "copy", "both"])
    if what != "copy":
        out = H.open_file("out", "wb")
        x.write_object_to(out)
        H.check(H.file_bytes(out) == content, "exactly the content is written")
    if what != "write":
        H.check(not H.has_object(dst, oid) or src == dst, "not yet there")
        H.check(x.copy_object_to(Path(dst)) == oid, "the same name in the destination")
        rc, got = H.git(dst, "cat-file", "blob", oid)
        H.check(rc == 0 and got == content, "exactly the content is copied")
        H.check(x.copy_object_to(Path(dst)) == oid, "copying again changes nothing")
        y = M.LocalGitMetadataSource(Path(dst), oid)
        out = H.open_file("out2", "wb")
        y.write_object_to(out)
        H.check(H.file_bytes(out) == content, "the copy has the content")
    rc, got = H.git(src, "cat-file", "blob", oid)
    H.check(rc == 0 and got == content, "the source is not changed")


def git_missing(H):
    """An object that is not there is an error, not empty content."""
    M = H.M
    src, dst = H.repo(), H.repo()
    what = H.pick("what", ["missing", "tree", "no name", "failing"])
    if what == "missing":
        ref = "0123456789" * 4
    elif what == "tree":
        b = _blob(H, src, b"x")
        ref = H.git(src, "mktree", stdin=f"100644 blob {b}\tx\n".encode())[1].decode().strip()
    elif what == "no name":
        ref = H.pick("reference", ["", "HEAD", "nothing", "0123"])
    else:
        ref = _blob(H, src, b"x")
    x = M.LocalGitMetadataSource(Path(src), ref)
    if what == "failing":
        at = H.int("failing command", 0, 1)
        H.on_command(lambda k, words: "fail" if k == at else None)
        if at == 0 and H.bool("write"):
            out = H.open_file("out", "wb")
            e = H.raises(x.write_object_to, out)
        else:
            e = H.raises(x.copy_object_to, Path(dst))
        H.on_command(None)
        H.check(e is not None, "a failing command is an error", what)
        return
    out = H.open_file("out", "wb")
    e = H.raises(x.write_object_to, out)
    H.check(isinstance(e, RuntimeError), "reading what is not there is an error", what)
    e = H.raises(x.copy_object_to, Path(dst))
    H.check(e is not None, "copying what is not there is an error", what)
