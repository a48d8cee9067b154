"""Adding paths to a stored tree gives exactly the old and the new entries."""
from pathlib import Path


def _listing(H, realm, tree):
    """{path: hash} of all leaf entries, and all directories with their entries"""
    rc, out = H.git(realm, "ls-tree", "-r", "-t", tree)
    H.check(rc == 0, "the result is a stored tree")
    entries = {}
    for line in out.decode().splitlines():
        fields, name = line.split("\t")
        mode, kind, oid = fields.split(" ")
        entries[name] = (mode, kind, oid)
    return entries


def _blob(H, realm, text):
    rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=text)
    return out.decode().strip()


def _mktree(H, realm, lines):
    rc, out = H.git(realm, "mktree", "--missing", stdin="".join(x + "\n" for x in lines).encode())
    return out.decode().strip()


def _name(H, what):
    return H.str(what, 1, 1, H.bound("alpha", "ab"))


def exact(H):
    """Paths of any names and kinds added to stored trees: the resulting tree, or a refusal."""
    U = H.M.module("mapper.gitmapper.treeupdater")
    realm = H.repo()
    blobs = [_blob(H, realm, b"%d" % i) for i in range(6)]
    sub = _mktree(H, realm, [f"100644 blob {blobs[0]}\tx"])
    # what is there: {path: ("blob"|"tree", hash)} without intermediate directories
    start = H.pick("start", ["empty", "file", "file without content", "file like a tree", "tree", "deep"])
    if start == "file without content":
        blobs[1] = _blob(H, realm, b"")
        start = "file"
    elif start == "file like a tree":
        blobs[1] = _blob(H, realm, f"100644 blob {blobs[0]}\tx\n".encode())
        start = "file"
    old = {}
    if start == "file":
        old = {"a": blobs[1]}
    elif start == "tree":
        old = {"a/a": blobs[1], "a/b": blobs[2]}
    elif start == "deep":
        old = {"a/a/b": blobs[1], "b": blobs[2]}
    dirs = {"deep": {"a": {"a": {"b": blobs[1]}}, "b": blobs[2]},
            "tree": {"a": {"a": blobs[1], "b": blobs[2]}}, "file": {"a": blobs[1]}, "empty": {}}[start]

    def store(d):
        lines = []
        for k, v in d.items():
            lines.append(f"040000 tree {store(v)}\t{k}" if isinstance(v, dict) else f"100644 blob {v}\t{k}")
        return _mktree(H, realm, lines)
    entries = U._get_dir(Path(realm), store(dirs)) if dirs else []
    model = {}

    def fill(d, prefix):
        for k, v in d.items():
            if isinstance(v, dict):
                model[prefix + (k,)] = "dir"
                fill(v, prefix + (k,))
            else:
                model[prefix + (k,)] = ("blob", v)
    fill(dirs, ())
    infos = []
    added = []
    conflict = False
    n = H.bound("paths", 2)
    for i in range(n):
        parts = [_name(H, f"name{i}") for _ in range(H.int(f"depth{i}", 1, H.bound("depth", 2)))]
        tree = H.bool("is a tree")
        oid = sub if tree else blobs[4 + i % 2]
        infos.append(U.PathInfo(parts, oid, U.EntryType.Directory if tree else U.EntryType.File))
        added.append((tuple(parts), tree, oid))
    # the outcome
    for i, (p, tree, oid) in enumerate(added):
        for q, _, _ in added[:i]:
            if q == p or q == p[:len(q)] or p == q[:len(p)]:
                conflict = True
        for k in range(1, len(p)):
            m = _get(model, p[:k])
            if m is not None and m != "dir" and (m[0] == "blob"):
                conflict = True
        m = _get(model, p)
        if m is not None and (m == "dir") != tree:
            conflict = True
    try:
        result = U.add_paths(Path(realm), infos, entries)
    except ValueError:
        H.check(conflict, "paths are refused only if they contradict each other or the tree")
        H.reach("refused")
        return
    H.check(not conflict, "contradicting paths are refused")
    got = _listing(H, realm, result)
    want = {}
    for p, m in model.items():
        # a tree that is replaced is replaced with everything below
        if any(tree and q == p[:len(q)] for q, tree, _ in added):
            continue
        if m != "dir":
            want["/".join(p)] = ("100644", "blob", m[1])
    for p, tree, oid in added:
        if tree:
            want["/".join(p) + "/x"] = ("100644", "blob", blobs[0])
        else:
            want["/".join(p)] = ("100644", "blob", oid)
    leaves = {k: v for k, v in got.items() if v[1] == "blob"}
    H.check(len(leaves) == len(want), "no entry is missing or added")
    for p, v in want.items():
        H.check(p in leaves and leaves[p] == v, "the entry has the given object")
    H.reach("added")
    H.observe_bag([[p, v[2]] for p, v in want.items()])


SPECIAL = ["é", "a\tb", '"', '"a"', "\\", "\\n", "a b", " a", "a ", "\x7f", "\u2028", "𝄞", "'", "a\nb"]


def names(H):
    """Entries and paths with any characters in their names."""
    U = H.M.module("mapper.gitmapper.treeupdater")
    realm = H.repo()
    blobs = [_blob(H, realm, b"%d" % i) for i in range(3)]

    def name(what):
        if H.bool("special " + what):
            return H.pick(what, SPECIAL)
        n = H.str(what, H.bound("len", 1), 1, "name")
        H.assume(n != "." and n != "..")
        return n
    old = name("existing name")
    directory = H.bool("is a directory")
    inner = blobs[0]
    if directory:
        rc, out = H.git(realm, "mktree", "-z", stdin=f"100644 blob {blobs[0]}\t{old}\0".encode())
        inner = out.decode().strip()
    rc, out = H.git(realm, "mktree", "-z", stdin=(
        f"040000 tree {inner}\t{old}\0" if directory else f"100644 blob {inner}\t{old}\0").encode())
    entries = U._get_dir(Path(realm), out.decode().strip())
    H.check(len(entries) == 1 and entries[0].name == old, "the name of an entry is what was stored")
    new = old if H.bool("same name") else name("new name")
    deep = H.bool("below")
    parts = [new, new] if deep else [new]
    conflict = new == old and deep != directory
    try:
        result = U.add_paths(Path(realm), [U.PathInfo(parts, blobs[1], U.EntryType.File)], entries)
    except ValueError:
        H.check(conflict, "paths are refused only if they contradict the tree")
        H.reach("refused")
        return
    H.check(not conflict, "contradicting paths are refused")
    want = [((old, old) if directory else (old,), blobs[0])]
    if new == old:
        want = []
    want.append((tuple(parts), blobs[1]))
    rc, out = H.git(realm, "ls-tree", "-r", "-z", result)
    H.check(rc == 0, "the result is a stored tree")
    got = [x.split(b"\t", 1) for x in out.split(b"\0")[:-1]]
    H.check(len(got) == len(want), "no entry is missing or added")
    for p, oid in want:
        H.check([f for f, n in got if n == "/".join(p).encode()] == [f"100644 blob {oid}".encode()],
                "the entry has the given object")
    H.reach("same" if new == old else "new")


def _get(model, p):
    for k, v in model.items():
        if k == p:
            return v
    return None
