"""The git backend: what is handed to it is what it returns."""
from harness.util import same


def _b(H):
    return H.M.module("mapper.gitmapper.gitbackend.subprocess")


NAME = ((32, 33), (35, 46), (48, 91), (93, 126))
MODES = [("100644", "blob"), ("040000", "tree"), ("100755", "blob"), ("160000", "commit")]


def _name(x):
    return x.encode() if isinstance(x, str) else x


def texts(H):
    """Text of any kind, saved and loaded."""
    B = _b(H)
    realm, other = H.repo(), H.repo()
    x = H.str("text", H.bound("len", 2))
    oid = B.git_save_str(realm, x)
    rc, out = H.git(realm, "cat-file", "blob", oid)
    H.check(rc == 0 and out == x.encode(), "the content is stored in UTF-8")
    H.check(B.git_load_str(realm, oid) == x, "the text is loaded")
    H.check(B.git_object_exists_locally(realm, oid) is True, "the object is there")
    H.check(B.git_object_exists_locally(other, oid) is False, "the object is not elsewhere")
    e = H.raises(B.git_load_str, other, oid)
    H.check(isinstance(e, RuntimeError), "loading what is not there fails", type(e))
    y = H.str("text", H.bound("len", 2))
    oid2 = B.git_save_str(realm, y)
    H.check((oid == oid2) == (x == y), "names are the same exactly for the same text")
    H.check(B.git_load_str(realm, oid) == x, "the first text is still there")
    H.check(B.git_load_str(realm, oid2) == y, "the second text is there")
    H.observe(B.git_load_str(realm, oid2))


def text_objects(H):
    """Text objects: written, read, copied."""
    T = H.M.module("text").Text
    R = H.M.Reference
    realm, other = H.repo(), H.repo()
    x = H.str("text", H.bound("len", 2))
    t = T(x)
    ref = t.write_out(realm)
    H.check((ref.class_name, t.content) == ("Text", x), "writing keeps the text")
    t.purge()
    H.check(t.content is None, "purging removes the text")
    t.read_in()
    H.check(t.content == x, "the text comes back")
    H.restart()
    T, R = H.M.module("text").Text, H.M.Reference
    t = T(None, realm, R("Text", ref.location))
    how = H.pick("how", ["read", "read twice", "copy", "change"])
    if how == "change":
        t.read_in()
        y = H.str("other", H.bound("len", 2))
        t.content = y
        t.touch()
        ref2 = t.write_out(realm)
        H.check((ref2.location == ref.location) == (x == y), "a reference names its text")
        t2 = T(None, realm, R("Text", ref2.location))
        H.check(t2.read_in().content == y, "the changed text is read")
        H.check(T(None, realm, R("Text", ref.location)).read_in().content == x,
                "the former text is still there")
        return
    if how == "copy":
        t.read_in()
        c = t.deepcopy(new_destination=other)
        H.check(t.content == x, "copying keeps the text")
        H.check(c.read_in().content == x, "the copy has the text")
        H.check(T(None, other, R("Text", c.reference.location)).read_in().content == x,
                "the copy is in the other store")
        H.check(c.realm == other and t.realm == realm, "stores of original and copy")
        return
    t.read_in()
    if how == "read twice":
        t.purge()
        t.read_in()
    H.check(t.content == x, "text read in another session")
    H.observe(t.content)


def _value(H, depth):
    k = H.pick("kind", ["str", "none", "bool", "int", "float", "list", "dict"] if depth
               else ["str", "none", "bool", "int", "float"])
    if k == "str":
        return H.str("text", H.bound("len", 1))
    if k == "list":
        return [_value(H, depth - 1) for _ in range(H.int("items", 0, 2))]
    if k == "dict":
        return {n: _value(H, depth - 1) for n in ("", "k")[:H.int("items", 0, 2)]}
    return {"none": None, "bool": True, "int": -2 ** 70 - 1, "float": 0.1 + 0.2}[k]


def values(H):
    """JSON values, saved and loaded."""
    B = _b(H)
    realm = H.repo()
    v = [_value(H, 0)] if H.bool("in a list") else {"k": _value(H, H.bound("depth", 1))}
    oid = B.git_save_json(realm, v)
    r = B.git_load_json(realm, oid)
    H.check(same(v, r), "the value is loaded")
    H.check(B.git_load_str(realm, oid).strip() != "", "there is text")
    H.observe(r)


def trees(H):
    """Trees: entries given, entries returned."""
    B = _b(H)
    U = H.M.module("mapper.gitmapper.utils")
    realm = H.repo()
    save = B.git_save_tree if H.bool("tree") else B.git_save_tree_node
    n = H.int("entries", 0, H.bound("entries", 2))
    blob = B.git_save_str(realm, "x")
    low = save(realm, [("100644", "blob", blob, "low")])
    given = []
    for i in range(n):
        flag, kind = H.pick("mode", MODES[:2 if i else 4])
        name = H.str("name", H.bound("len", 2) if not i else 1, 1, NAME)
        if name == "." or name == "..":
            return
        for _, _, _, m in given:
            if m == name:
                return
        oid = {"blob": blob, "tree": low, "commit": "1" * 40}[kind]
        given.append((flag, kind, oid, name))
    oid = save(realm, iter(given) if H.bool("iterator") else given)
    readers = [B.git_ls_tree, B.git_read_tree_node]
    for f in readers:
        lines = f(realm, oid)
        got = [U.split_git_lstree_line(x) for x in lines]
        H.check(len(got) == len(given), "as many entries")
        for g in given:
            H.check(any(tuple(r) == g for r in got), "each entry is returned")
    # the tree is of these entries, only
    if n:
        oid2 = save(realm, given[1:])
        H.check(oid2 != oid, "another tree has another name")
    H.check(save(realm, given[::-1]) == oid, "the order does not matter")
    e = H.raises(B.git_ls_tree, realm, blob)
    H.check(isinstance(e, RuntimeError), "a blob is no tree", type(e))
    H.observe(n)


def nested(H):
    """Trees in trees, listed as a whole."""
    B = _b(H)
    U = H.M.module("mapper.gitmapper.utils")
    realm = H.repo()
    name = H.str("name", 2, 1, NAME)
    if name == "." or name == ".." or name == "sub" or name == "d":
        return
    blob = B.git_save_str(realm, "x")
    deep = B.git_save_tree(realm, [("100644", "blob", blob, "low")])
    mid = B.git_save_tree(realm, [("040000", "tree", deep, "d"), ("100644", "blob", blob, name)])
    top = B.git_save_tree(realm, [("040000", "tree", mid, "sub"), ("100644", "blob", blob, name)])
    files = [("100644", "blob", blob, "sub/d/low"), ("100644", "blob", blob, "sub/" + name),
             ("100644", "blob", blob, name)]
    dirs = [("040000", "tree", mid, "sub"), ("040000", "tree", deep, "sub/d")]
    for args, expect in (((), files), ((False,), files), ((True,), files + dirs)):
        got = [tuple(U.split_git_lstree_line(x)) for x in B.git_ls_tree_recursive(realm, top, *args)]
        H.check(len(got) == len(expect), f"recursive listing, number of entries {args}")
        for x in expect:
            H.check(any(x == g for g in got), f"recursive listing, entry {args}")
    H.observe(sorted(str(x[3]) for x in dirs))


def files(H):
    """Files: one name for each, in the given order."""
    B = _b(H)
    realm = H.repo()
    given = []
    names = []
    for i in range(H.int("files", 1, H.bound("files", 3))):
        f = H.open_file(f"file{i}")
        x = H.bytes("bytes", H.bound("len", 2)) if i == 0 else H.pick("content", [b"a\r\nb\n", b""])
        f.write(x)
        f.close()
        given.append(x)
        names.append(str(f.name))
    if H.bool("one named again"):
        i = H.int("which", 0, len(given) - 1)
        given.append(given[i])
        names.append(names[i])
    got = B.git_save_file_list(realm, names)
    H.check(len(got) == len(given), "one name for each file")
    for x, oid in zip(given, got):
        rc, out = H.git(realm, "cat-file", "blob", oid)
        H.check(rc == 0 and out == x, "the names are in the order of the files")
    H.observe(len(got))


def references(H):
    """References: set, replaced, deleted; the others stay."""
    B = _b(H)
    realm = H.repo()
    names = ["refs/datalad/a", "refs/datalad/b/c"]
    blobs = [B.git_save_str(realm, x) for x in ("1", "2")]
    expect = {}
    for i in range(H.int("steps", 1, H.bound("steps", 3))):
        name = H.pick("name", names)
        how = H.pick("how", ["set", "delete"])
        if how == "set":
            oid = H.pick("object", blobs)
            B.git_update_ref(realm, name, oid)
            expect[name] = oid
        else:
            B.git_delete_ref(realm, name)
            expect.pop(name, None)
        H.check(H.refs(realm) == expect, "the references are as they were set")
        for n in names:
            if n in expect:
                H.check(B.git_load_str(realm, n) == ("1" if expect[n] == blobs[0] else "2"),
                        "what a reference leads to is loaded")
            else:
                e = H.raises(B.git_load_str, realm, n)
                H.check(isinstance(e, RuntimeError), "a missing reference is an error", type(e))
    H.observe(len(expect))


def failures(H):
    """A command that fails is an error that tells what git said."""
    B = _b(H)
    realm = H.repo()
    blob = B.git_save_str(realm, "x")
    tree = B.git_save_tree(realm, [("100644", "blob", blob, "n")])
    B.git_update_ref(realm, "refs/datalad/a", tree)
    calls = {
        "load": lambda: B.git_load_str(realm, blob),
        "json": lambda: B.git_load_json(realm, blob),
        "save": lambda: B.git_save_str(realm, H.str("text", 1)),
        "save json": lambda: B.git_save_json(realm, [1]),
        "tree": lambda: B.git_save_tree(realm, [("100644", "blob", blob, "m")]),
        "tree node": lambda: B.git_save_tree_node(realm, [("100644", "blob", blob, "m")]),
        "list": lambda: B.git_ls_tree(realm, tree),
        "list all": lambda: B.git_ls_tree_recursive(realm, tree),
        "list all trees": lambda: B.git_ls_tree_recursive(realm, tree, True),
        "read": lambda: B.git_read_tree_node(realm, tree),
        "ref": lambda: B.git_update_ref(realm, "refs/datalad/a", blob),
        "delete": lambda: B.git_delete_ref(realm, "refs/datalad/a"),
        "files": lambda: B.git_save_file_list(realm, [str(H.open_file("f").name)]),
        "fetch": lambda: B.git_fetch_reference(realm, realm, "refs/datalad/a"),
        "fetch object": lambda: B.git_fetch_object(realm, realm, blob),
        "init": lambda: B.git_init(realm),
    }
    call = calls[H.pick("call", sorted(calls))]
    H.on_command(lambda k, argv: "fail")
    e = H.raises(call)
    H.on_command(None)
    H.check(isinstance(e, RuntimeError), "a failing command is an error", type(e))
    H.check(isinstance(e.stdout, str) and len(e.stderr) > 0, "the error has what git said")
    H.check(e.stderr in str(e), "the message tells what git said")
    H.check(H.refs(realm) == {"refs/datalad/a": tree}, "nothing has changed")
    H.check(B.git_load_str(realm, blob) == "x", "loading works again")
    e = H.raises(B.git_update_ref, realm, "refs/datalad/b", "2" * 40)
    H.check(isinstance(e, RuntimeError), "a reference to nothing is refused", type(e))
    e = H.raises(B.git_update_ref, realm, "refs/datalad/a", "2" * 40)
    H.check(isinstance(e, RuntimeError), "a reference to nothing is refused", type(e))
    H.check(H.refs(realm) == {"refs/datalad/a": tree}, "references are as they were")
    H.observe(type(e).__name__)


def remote(H):
    """Objects of another store, through the local cache."""
    B = _b(H)
    realm = H.repo()
    url = "https://host/store"
    H.remote(url, realm)
    x = H.str("text", H.bound("len", 2))
    oid = B.git_save_str(realm, x)
    tree = B.git_save_tree(realm, [("100644", "blob", oid, "n")])
    top = B.git_save_tree(realm, [("040000", "tree", tree, "d")])
    B.git_update_ref(realm, "refs/datalad/a", oid)
    B.git_update_ref(realm, "refs/datalad/t", top)
    for i in range(H.bound("steps", 2)):
        how = H.pick("how", ["text", "ref", "list", "read", "all", "move"])
        if how == "text":
            H.check(B.git_load_str(url, oid) == x, "the text of the other store")
        if how == "ref":
            H.check(B.git_load_str(url, "refs/datalad/a") == x, "the text of the reference")
        if how == "list":
            H.check(B.git_ls_tree(url, tree) == [f"100644 blob {oid}\tn"], "the entries")
        if how == "read":
            H.check(B.git_read_tree_node(url, tree) == [f"100644 blob {oid}\tn"], "the entries")
        if how == "all":
            H.check(B.git_ls_tree_recursive(url, top) == [f"100644 blob {oid}\td/n"], "all files")
        if how == "move":
            x = x + "!"
            oid = B.git_save_str(realm, x)
            tree = B.git_save_tree(realm, [("100644", "blob", oid, "n")])
            top = B.git_save_tree(realm, [("040000", "tree", tree, "d")])
            B.git_update_ref(realm, "refs/datalad/a", oid)
            B.git_update_ref(realm, "refs/datalad/t", top)
    e = H.raises(B.git_load_str, url, "refs/datalad/none")
    H.check(isinstance(e, RuntimeError), "a missing reference is an error", type(e))
    H.observe(B.git_load_str(url, "refs/datalad/a"))
