"""Blobs that are collected and written together."""


def _content(H, i):
    """A text or bytes"""
    if H.bool("bytes"):
        return H.bytes("bytes", H.bound("len", 2))
    return H.str("text", H.bound("len", 2))


def _raw(x):
    return x.encode() if isinstance(x, str) else x


def names(H):
    """The name of a blob is the one git gives it."""
    G = H.M.module("mapper.gitmapper.gitblobcache")
    realm = H.repo()
    x = _content(H, 0)
    name = G.hash_blob(x)
    rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=_raw(x))
    H.check(rc == 0 and out.decode().strip() == name, "the name that git gives")
    y = _content(H, 1)
    H.check((G.hash_blob(y) == name) == (_raw(x) == _raw(y)), "same names exactly for same content")


def written(H):
    """Any blobs, any size of the cache, flushed at any time: all are in the store."""
    G = H.M.module("mapper.gitmapper.gitblobcache")
    realm, other = H.repo(), H.repo()
    size = H.int("size", 1, 3)
    cache = G.GitBlobCache(realm, size)
    added = []
    flushed = 0
    for i in range(H.int("blobs", 0, H.bound("blobs", 4))):
        x = b"fix" if i and H.bool("same again") else _content(H, i) if i < 1 else (
            f"text {i}" if H.bool("text") else b"bytes\xff %d" % i)
        # objects of other stores are refused
        if i == 1 and H.bool("other store"):
            e = H.raises(cache.cache_blob, other, x)
            H.check(e is not None, "blobs of another store are refused")
        n = H.commands()
        oid = cache.cache_blob(realm, x)
        added.append((oid, x))
        if H.bool("flush"):
            cache.flush()
            for o, c in added:
                H.check(H.has_object(realm, o), "there after a flush")
    cache.flush()
    for o, c in added:
        rc, out = H.git(realm, "cat-file", "blob", o)
        H.check(rc == 0 and out == _raw(c), "the content of each blob is stored under its name")
    for o, c in added:
        H.check(not H.has_object(other, o), "nothing is written elsewhere")
    n = H.commands()
    cache.flush()
    for o, c in added:
        rc, out = H.git(realm, "cat-file", "blob", o)
        H.check(rc == 0 and out == _raw(c), "flushing again changes nothing")
    H.observe(len(added))


def failing(H):
    """A flush that fails can be repeated; nothing is lost."""
    G = H.M.module("mapper.gitmapper.gitblobcache")
    realm = H.repo()
    cache = G.GitBlobCache(realm, H.int("size", 1, 3))
    at = H.int("failing command", 0, 2)
    state = {}

    def hook(k, words):
        if k == at:
            state["failed"] = True
            return "fail"
    H.on_command(hook)
    added = []
    for i in range(3):
        x = H.str("text", 1) if i == 0 else f"text {i}"
        try:
            oid = cache.cache_blob(realm, x)
        except RuntimeError:
            H.check("failed" in state, "no error without a failing command")
            oid = cache.cache_blob(realm, x)
        added.append((oid, x))
    try:
        cache.flush()
    except RuntimeError:
        H.check("failed" in state, "no error without a failing command")
        if H.bool("given up and collected again"):
            H.on_command(None)
            cache.discard()
            for o, c in added:
                H.check(cache.cache_blob(realm, c) == o, "the same name again")
        cache.flush()
    H.on_command(None)
    for o, c in added:
        rc, out = H.git(realm, "cat-file", "blob", o)
        H.check(rc == 0 and out == _raw(c), "every blob is stored in the end")


def through_trees(H):
    """A file tree is stored with the same names, however many entries are written together."""
    from harness.util import meta
    P = H.M.MetadataPath
    G = H.M.module("mapper.gitmapper.gitblobcache")
    realm, other = H.repo(), H.repo()
    n = H.int("entries", 1, 3)
    t = H.str("tag", 1)

    def tree(cls):
        ft = cls()
        for i in range(n):
            ft.add_metadata(P(f"d/{i}"), meta(H, t if i == 0 else str(i)))
        return ft
    ref = tree(H.M.FileTree).write_out(realm)
    # each entry on its own, in another store
    for i in range(n):
        m = meta(H, t if i == 0 else str(i))
        r = m.write_out(other)
        rc, out = H.git(realm, "cat-file", "blob", r.location)
        H.check(rc == 0, "an entry is stored under the name it has on its own")
        inner = H.M.Reference.from_json_str(out.decode())
        rc, a = H.git(realm, "cat-file", "blob", inner.location)
        rc2, b = H.git(other, "cat-file", "blob", inner.location)
        H.check(rc == 0 and rc2 == 0 and a == b, "with the same content")
