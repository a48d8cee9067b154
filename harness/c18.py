"""Reading from remote stores goes through a cache per remote store."""
from pathlib import Path

from harness.top import first_session, plain, save, states, update

URLS = ["https://host/one", "https://host/one/", "ssh://host/one", "git@host:one", "http://host/two",
        "git://host/one"]
PAIRS = [(URLS[0], URLS[1]), (URLS[3], URLS[2])]


def reading(H):
    """Two remote stores with different content, read in any order, changed in between."""
    u1, u2 = H.pick("stores", PAIRS)
    a, b = H.repo(), H.repo()
    first_session(H, a)
    H.restart()
    tvl, us = update(H, b, "new dataset", H.str("tag", 1, 1, "abc"))
    save(H, b, tvl, us)
    H.remote(u1, a)
    H.remote(u2, b)
    stores = {u1: a, u2: b}
    H.restart()
    for i in range(H.bound("steps", 3)):
        op = H.pick("op", ["read first", "read second", "change first", "change second"])
        u = u1 if op.endswith("first") else u2
        if op.startswith("read"):
            if H.bool("new process"):
                H.restart()
            before = H.refs(stores[u])
            got = states(H, u)
            H.check(H.refs(stores[u]) == before, "the remote store is not changed")
            H.check(got == states(H, stores[u]), "content of the remote store")
            H.reach("read")
        else:
            H.restart()
            tvl, us = update(H, stores[u], H.pick("update", ["new version", "change file"])
                             if u == u1 else "new version", f"t{i}")
            save(H, stores[u], tvl, us)
            H.reach("changed")
    for u in (u1, u2):
        H.check(states(H, u) == states(H, stores[u]), "content of both in the end")


def missing(H):
    """A remote store without metadata, or with a part of it."""
    u = H.pick("url", URLS)
    a = H.repo()
    have = H.pick("have", ["nothing", "trees", "datasets"])
    tvl, us = update(H, a, "new dataset", "t")
    if have == "trees":
        tvl.write_out(a)
    if have == "datasets":
        us.write_out(a)
    H.remote(u, a)
    H.restart()
    got = H.M.get_top_level_metadata_objects("git", u)
    H.check((got[0] is not None) == (have == "trees"), "trees are found exactly if they are there")
    H.check((got[1] is not None) == (have == "datasets"), "datasets are found exactly if they are there")
    # later, the rest appears
    H.restart()
    first_session(H, a)
    H.restart()
    H.check(states(H, u) == states(H, a), "content that appears later is seen")


def separate(H):
    """Different remote stores never share a cache."""
    L = H.M.module("mapper.gitmapper.localcache")
    s, t = H.str("first", H.bound("len", 3)), H.str("second", H.bound("len", 3))
    a, b = str(L.get_cache_realm(s)), str(L.get_cache_realm(t))
    H.check((a == b) == (s == t), "caches are equal exactly if the addresses are")
    H.check(str(L.get_repo_cache_path(s)) == a, "where the cache is")
    H.check(a.startswith(str(L.cache_repository_base)), "below the cache directory")
    H.check(".." not in a[len(str(L.cache_repository_base)):], "below the cache directory")


def copying(H):
    """Copies of remote objects, made without a local store of them."""
    u = H.pick("url", URLS[:3])
    a, b = H.repo(), H.repo()
    first_session(H, a)
    H.remote(u, a)
    H.restart()
    tvl, us = H.M.get_top_level_metadata_objects("git", u)
    if H.bool("looked at"):
        states(H, u)
    tvl.deepcopy(new_destination=b)
    us.deepcopy(new_destination=b)
    H.M.flush_object_references(Path(b))
    H.restart()
    H.prune(b)
    H.check(states(H, b) == states(H, a), "the copy has the same content")
