"""The lock of a store: held exactly while somebody needs it."""
from pathlib import Path


def counting(H):
    """Any sequence of locking and unlocking of two stores."""
    U = H.M.module("mapper.gitmapper.utils")
    where = H.pick("stores", ["two", "one without git", "same name", "one in the other"])
    if where == "same name":
        realms = [H.repo(exact="x/store"), H.repo(exact="y/store")]
    elif where == "one in the other":
        realms = [H.repo(exact="store"), H.repo(exact="store/store")]
    else:
        realms = [H.repo(), H.repo() if where == "two" else H.directory("plain")]
    count = [0, 0]
    for i in range(H.bound("steps", 5)):
        n = H.int("store", 0, 1)
        realm = Path(realms[n])
        if H.bool("lock"):
            U.lock_backend(realm)
            count[n] += 1
        elif count[n] == 0:
            e = H.raises(U.unlock_backend, realm)
            H.check(isinstance(e, AssertionError), "releasing what is not held is refused")
        else:
            U.unlock_backend(realm)
            count[n] -= 1
        for k in (0, 1):
            H.check(H.lock_held(realms[k]) == (count[k] > 0), "held exactly while it is needed")
    for k in (0, 1):
        while count[k]:
            U.unlock_backend(Path(realms[k]))
            count[k] -= 1
        H.check(not H.lock_held(realms[k]), "released in the end")
    # it can be taken again
    U.lock_backend(Path(realms[0]))
    H.check(H.lock_held(realms[0]) and not H.lock_held(realms[1]), "taken again")
    U.unlock_backend(Path(realms[0]))
    H.check(not H.lock_held(realms[0]), "released in the end")


SPELLINGS = ["same", "relative", "detour", "dots", "slashes"]


def spelled(H):
    """One store, its path written in different ways."""
    U = H.M.module("mapper.gitmapper.utils")
    realm = H.repo()
    count = 0
    for i in range(H.bound("steps", 4)):
        p = Path(H.spelled(realm, H.pick("spelling", SPELLINGS)))
        if H.bool("lock"):
            U.lock_backend(p)
            count += 1
        elif count:
            U.unlock_backend(p)
            count -= 1
        H.check(H.lock_held(realm) == (count > 0), "held exactly while it is needed")
    while count:
        U.unlock_backend(Path(realm))
        count -= 1
    H.check(not H.lock_held(realm), "released in the end")


class Oops(Exception):
    pass


class Stop(BaseException):
    pass


ERRORS = [Oops, KeyError, RuntimeError, OSError, StopIteration, Stop]


def nested(H):
    """Nested use as a context, left normally or by an exception anywhere."""
    U = H.M.module("mapper.gitmapper.utils")
    realms = [H.repo(), H.repo()]
    plan = [H.int("store", 0, 1) for _ in range(H.int("levels", 1, H.bound("levels", 3)))]
    fail = H.int("fails at level", -1, len(plan) - 1)
    late = H.bool("on the way back")
    error = H.pick("error", ERRORS) if fail >= 0 else Oops
    caught = H.int("caught at level", 0, len(plan) - 1)
    count = [0, 0]

    def look():
        for k in (0, 1):
            H.check(H.lock_held(realms[k]) == (count[k] > 0), "held exactly while it is needed")

    def level(i):
        if i == len(plan):
            return
        try:
            with U.locked_backend(Path(realms[plan[i]])):
                count[plan[i]] += 1
                look()
                try:
                    if i == fail and not late:
                        raise error()
                    level(i + 1)
                    look()
                    if i == fail:
                        raise error()
                finally:
                    count[plan[i]] -= 1
        except error:
            look()
            if i != caught:
                raise
        look()
    try:
        level(0)
    except error:
        H.check(caught > fail >= 0, "the exception is not swallowed")
    look()


def waiting(H):
    """Another process holds the lock of one of two stores."""
    U = H.M.module("mapper.gitmapper.utils")
    kind = H.pick("stores", ["two", "one without git", "one in the other"])
    if kind == "one in the other":
        realms = [H.repo(exact="store"), H.repo(exact="store/store")]
    else:
        realms = [H.repo() if kind == "two" else H.directory("plain"), H.repo()]
    which = H.int("locked elsewhere", 0, 1)
    before = H.pick("before", ["nothing", "locked once", "references recorded"])
    what = H.pick("what", ["lock", "block", "flush"])
    if kind == "one without git":
        H.assume(what != "flush" and before != "references recorded")
    if before == "locked once":
        for r in realms:
            with U.locked_backend(Path(r)):
                pass
    elif before == "references recorded":
        for i, r in enumerate(realms):
            H.M.add_blob_reference("%040x" % (i + 1))
            H.M.flush_object_references(Path(r))
    other = H.bool("the other store is locked by this process")
    if other:
        U.lock_backend(Path(realms[1 - which]))
    H.lock_elsewhere(realms[which], seconds=0.7 if which == 0 else 6)
    realm = Path(realms[0])
    if what == "lock":
        U.lock_backend(realm)
    elif what == "block":
        with U.locked_backend(realm):
            H.check(not (which == 0 and H.held_elsewhere(realms[0])), "one process at a time")
            H.check(H.lock_held(realms[0]), "held while it is needed")
    else:
        H.M.add_blob_reference("%040x" % 5)
        H.M.flush_object_references(realm)
    H.check(H.held_elsewhere(realms[which]) == (which == 1), "waits for this store only")
    if what == "lock":
        H.check(H.lock_held(realms[0]), "held while it is needed")
        U.unlock_backend(realm)
    if which == 0:
        H.check(not H.lock_held(realms[0]), "released in the end")
    H.check(not other or H.lock_held(realms[1 - which]), "the other lock is as it was")
    if other:
        U.unlock_backend(Path(realms[1 - which]))
        H.check(not H.lock_held(realms[1 - which]), "released in the end")


def users(H):
    """The operations that need the lock release it, whether they succeed or fail."""
    realm = H.repo()
    outer = H.bool("held by the caller")
    U = H.M.module("mapper.gitmapper.utils")
    P = H.M.MetadataPath
    what = H.pick("what", ["flush", "tree version list", "set of datasets"])
    fail = H.int("failing command", -1, 8)
    if outer:
        U.lock_backend(Path(realm))
    state = {}

    def hook(k, words):
        if k == fail:
            state["failed"] = True
            return "fail"
    try:
        if what == "flush":
            oid = H.git(realm, "hash-object", "-w", "--stdin", stdin=b"x")[1].decode().strip()
            H.M.add_blob_reference(oid)
            H.on_command(hook)
            H.M.flush_object_references(Path(realm))
        else:
            x = H.M.TreeVersionList() if what == "tree version list" else H.M.UUIDSet()
            H.on_command(hook)
            x.write_out(realm)
    except RuntimeError:
        H.check("failed" in state, "no error without a failing command", what)
    H.on_command(None)
    H.assume("failed" in state or fail == -1)
    H.check(H.lock_held(realm) == outer, "the lock is as it was before", what)
    if outer:
        U.unlock_backend(Path(realm))
        H.check(not H.lock_held(realm), "released in the end", what)
