"""Object references accumulate: nothing that was recorded is ever dropped."""
from pathlib import Path

REF = "refs/datalad/object-references-2.0"
TREES = "refs/datalad/object-references/trees"
BLOBS = "refs/datalad/object-references/blobs"


def _object(H, realm, i, tree=False):
    rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=b"object %d" % i)
    oid = out.decode().strip()
    if tree:
        rc, out = H.git(realm, "mktree", "--missing", stdin=f"100644 blob {oid}\tx\n".encode())
        oid = out.decode().strip()
    return oid


def _recorded(H, realm):
    """All objects the reference store leads to, below their full names"""
    if REF not in H.refs(realm):
        return []
    out = []

    def walk(tree, prefix):
        rc, text = H.git(realm, "ls-tree", tree)
        H.check(rc == 0, "the reference store can be read")
        for line in text.decode().splitlines():
            fields, name = line.split("\t")
            mode, kind, oid = fields.split(" ")
            if len(prefix + name) >= 40:
                out.append((kind, prefix + name, oid))
            else:
                walk(oid, prefix + name)
    walk(H.refs(realm)[REF], "")
    return out


def _check(H, realm, want, label):
    got = _recorded(H, realm)
    for kind, oid in want:
        H.check(len([1 for k, n, o in got if o == oid and n == oid and k == kind]) == 1, label)
    H.check(len(got) == len(want), "nothing else is recorded", label)
    for kind, oid in want:
        H.check(H.reachable(realm, oid), "a recorded object is reachable", label)


def _watch_lock(H, realm, broken):
    """The lock is held whenever the reference store is read or replaced."""
    def hook(k, words):
        if REF in words and "-e" not in words and not H.lock_held(realm):
            broken.append(words)
        if "mktree" in words and not H.lock_held(realm):
            broken.append(words)
        return None
    H.on_command(hook)


def accumulate(H):
    """Objects added and flushed in any grouping, by one or several processes."""
    realm = H.repo()
    want = []
    broken = []
    _watch_lock(H, realm, broken)
    for i in range(H.bound("steps", 4)):
        op = H.pick("op", ["blob", "tree", "blob and flush", "again", "flush", "new process"])
        if op == "again" and want:
            kind, oid = want[0]
            (H.M.add_tree_reference if kind == "tree" else H.M.add_blob_reference)(oid)
        elif op in ("blob", "tree", "blob and flush"):
            H.on_command(None)
            oid = _object(H, realm, i, op == "tree")
            _watch_lock(H, realm, broken)
            (H.M.add_tree_reference if op == "tree" else H.M.add_blob_reference)(oid)
            want.append(("tree" if op == "tree" else "blob", oid))
        if op in ("flush", "blob and flush"):
            H.M.flush_object_references(Path(realm))
            H.check(not H.lock_held(realm), "the lock is released")
            _check(H, realm, want, "flushed")
        elif op == "new process":
            H.M.flush_object_references(Path(realm))
            H.restart()
            _watch_lock(H, realm, broken)
    H.M.flush_object_references(Path(realm))
    H.M.flush_object_references(Path(realm))
    H.on_command(None)
    H.check(not broken, "the lock is held while the reference store is changed")
    _check(H, realm, want, "flushed")
    H.check(not H.lock_held(realm), "the lock is released")
    H.observe(len(want))


def prefixes(H):
    """Objects whose names begin alike."""
    realm = H.repo()
    base = "0123456789abcdef0123456789abcdef01234567"
    want = []
    for i in range(H.bound("objects", 3)):
        at = H.pick("differs at", [0, 2, 3, 5, 6, 8, 9, 39])
        c = H.pick("digit", ["e", "f"])
        oid = base[:at] + c + base[at + 1:]
        kind = "blob"
        if any(o == oid for k, o in want):
            continue
        H.M.add_blob_reference(oid)
        want.append((kind, oid))
        if H.bool("flush"):
            H.M.flush_object_references(Path(realm))
    H.M.flush_object_references(Path(realm))
    got = _recorded(H, realm)
    H.check(len(got) == len(want), "all are recorded")
    for kind, oid in want:
        H.check(len([1 for k, n, o in got if o == oid and n == oid and k == kind]) == 1, "each is recorded")


def legacy(H):
    """References of the former format are taken over."""
    realm = H.repo()
    want, trees, blobs, current = [], [], [], []
    for i in range(H.int("trees", 0, 2)):
        trees.append(_object(H, realm, i, True))
    for i in range(H.int("blobs", 0, 2)):
        blobs.append(_object(H, realm, 10 + i))
    has = H.bool("current references")
    if has:
        H.M.add_blob_reference(_object(H, realm, 20))
        current.append(("blob", _object(H, realm, 20)))
        H.M.flush_object_references(Path(realm))
        H.restart()
    for ref, oids, mode in ((TREES, trees, "040000 tree"), (BLOBS, blobs, "100644 blob")):
        if oids or H.bool("empty store"):
            rc, out = H.git(realm, "mktree", "--missing",
                            stdin="".join(f"{mode} {o}\to:{o}\n" for o in oids).encode())
            H.git(realm, "update-ref", ref, out.decode().strip())
    want = current + [("tree", o) for o in trees] + [("blob", o) for o in blobs]
    if H.bool("new object"):
        H.M.add_blob_reference(_object(H, realm, 30))
        want.append(("blob", _object(H, realm, 30)))
    before = sorted(o for k, o in want)
    stop = H.int("stopped at command", 0, H.bound("commands", 30))
    how = H.pick("how", ["not at all", "dies", "fails"])
    state = {"stopped": False}
    if how == "not at all":
        H.assume(stop == 0)
    else:
        def hook(k, words):
            for kind, o in want[:len(current) + len(trees) + len(blobs)]:
                if not H.reachable(realm, o):
                    state["lost"] = True
            if k == stop:
                state["stopped"] = True
                return "crash" if how == "dies" else "fail"
        H.on_command(hook)
    died = False
    try:
        H.M.flush_object_references(Path(realm))
    except H.Crash:
        died = True
    except RuntimeError:
        H.reach("failed")
        H.check(how == "fails", "no error without a failing command")
    H.on_command(None)
    if how != "not at all":
        H.assume(state["stopped"])
    H.check("lost" not in state, "former references are reachable at any time")
    for kind, o in want[:len(current) + len(trees) + len(blobs)]:
        H.check(H.reachable(realm, o), "former references are reachable after the disturbance")
    if died:
        H.restart()
        H.reach("died")
        for kind, o in want[len(current) + len(trees) + len(blobs):]:
            H.M.add_blob_reference(o)
    if how == "not at all":
        H.check(TREES not in H.refs(realm) and BLOBS not in H.refs(realm) or not (trees or blobs),
                "the former store is gone")
    elif how == "dies":
        H.M.flush_object_references(Path(realm))
    else:
        H.M.flush_object_references(Path(realm))
        H.restart()
        H.M.flush_object_references(Path(realm))
    for kind, o in want:
        H.check(H.reachable(realm, o), "all references are reachable in the end", kind)
    if how != "fails":
        got = _recorded(H, realm)
        H.check(sorted(o for k, n, o in got) == sorted(o for k, o in want), "exactly these are recorded")
        H.check(TREES not in H.refs(realm) and BLOBS not in H.refs(realm), "the former store is gone")
    H.check(not H.lock_held(realm), "the lock is released")


def legacy_stores(H):
    """Several stores with references of the former format, used by one process."""
    realms = [H.repo(), H.repo()]
    want = []
    for n, realm in enumerate(realms):
        mine = []
        kind = H.pick("former references", ["none", "tree", "blob", "both"])
        for ref, what, mode in ((TREES, "tree", "040000 tree"), (BLOBS, "blob", "100644 blob")):
            if kind in (what, "both"):
                o = _object(H, realm, 5 * n + (1 if what == "tree" else 2), what == "tree")
                rc, out = H.git(realm, "mktree", "--missing", stdin=f"{mode} {o}\to:{o}\n".encode())
                H.git(realm, "update-ref", ref, out.decode().strip())
                mine.append((what, o))
        want.append(mine)
    order = [0, 1] if H.bool("first store first") else [1, 0]
    again = H.bool("again")
    for n in order + (order if again else []):
        new = None
        if again and n == order[0] and H.bool("new object"):
            new = _object(H, realms[n], 30)
        if new is not None and ("blob", new) not in want[n]:
            H.M.add_blob_reference(new)
            want[n].append(("blob", new))
        H.M.flush_object_references(Path(realms[n]))
        for kind, o in want[n]:
            H.check(H.reachable(realms[n], o), "what was referred to still is", kind)
    for n in (0, 1):
        got = _recorded(H, realms[n]) if want[n] else []
        H.check(sorted((k, o) for k, m, o in got) == sorted(want[n]), "exactly these are recorded")
        H.check(TREES not in H.refs(realms[n]) and BLOBS not in H.refs(realms[n]),
                "the former store is gone")
        H.check(not H.lock_held(realms[n]), "the lock is released")


def _read(H, realm):
    have = {}
    if REF in H.refs(realm):
        rc, text = H.git(realm, "ls-tree", REF)
        for x in text.decode().splitlines():
            have[x.split("\t")[1]] = x
    return have


def _write(H, realm, oid, have):
    """What another process does, with plain git commands, to record an object"""
    d = [oid[0:3], oid[3:6], oid[6:9], oid[9:]]
    line = f"040000 tree {oid}\t{d[3]}\n"
    for name in (d[2], d[1]):
        rc, out = H.git(realm, "mktree", "--missing", stdin=line.encode())
        line = f"040000 tree {out.decode().strip()}\t{name}\n"
    rc, out = H.git(realm, "mktree", "--missing", stdin=line.encode())
    have[d[0]] = f"040000 tree {out.decode().strip()}\t{d[0]}"
    rc, out = H.git(realm, "mktree", "--missing",
                    stdin="".join(v + "\n" for v in have.values()).encode())
    H.git(realm, "update-ref", REF, out.decode().strip())


def writers(H):
    """Another process flushes between any two commands of this one, whenever the lock is free."""
    realm = H.repo()
    mine, theirs, first = _object(H, realm, 1), _object(H, realm, 2, True), _object(H, realm, 3)
    want = [("blob", mine)]
    if H.bool("references before"):
        H.M.add_blob_reference(first)
        H.M.flush_object_references(Path(realm))
        H.restart()
        want.append(("blob", first))
    at = H.int("other at command", 0, H.bound("commands", 14))
    H.M.add_blob_reference(mine)
    did = {}

    def other(k, words):
        # the other process writes its reference with plain git commands
        if k != at or "done" in did:
            return None
        did["at"] = True
        if H.lock_held(realm):
            return None          # it waits for the lock
        did["done"] = True
        H.on_command(None)
        _write(H, realm, theirs, _read(H, realm))
        return None
    H.on_command(other)
    H.M.flush_object_references(Path(realm))
    H.on_command(None)
    H.assume("at" in did)
    if "done" in did:
        want.append(("tree", theirs))
        H.reach("interleaved")
    else:
        H.reach("waited")
    _check(H, realm, want, "references of both processes")


def held(H):
    """Another process is about to replace the references: it is waited for."""
    realm = H.repo()
    mine, theirs, first = _object(H, realm, 1), _object(H, realm, 2, True), _object(H, realm, 3)
    want = [("blob", mine), ("tree", theirs)]
    before = H.pick("references before", ["none", "by this process", "by a former one", "former format"])
    if before == "former format":
        rc, out = H.git(realm, "mktree", "--missing", stdin=f"100644 blob {first}\to:{first}\n".encode())
        H.git(realm, "update-ref", BLOBS, out.decode().strip())
        want.append(("blob", first))
    elif before != "none":
        H.M.add_blob_reference(first)
        H.M.flush_object_references(Path(realm))
        if before == "by a former one":
            H.restart()
        want.append(("blob", first))
    H.M.add_blob_reference(mine)
    have = _read(H, realm)
    H.lock_elsewhere(realm, lambda: _write(H, realm, theirs, have))
    early = []

    def hook(k, words):
        if ("mktree" in words or "update-ref" in words) and H.held_elsewhere(realm):
            early.append(words)
    H.on_command(hook)
    H.M.flush_object_references(Path(realm))
    H.on_command(None)
    H.check(not early, "nothing is written while the store is locked by another process")
    H.finish_elsewhere(realm)
    _check(H, realm, want, "references of both processes")
    H.check(not H.lock_held(realm), "released in the end")
