"""A process that dies while it saves leaves the old or the new state, and can be repeated."""
from pathlib import Path

from harness.c14 import _recorded
from harness.top import UPDATES, first_session, plain, save, states, update


def _crash_at(H, k):
    H.on_command(lambda i, words: "crash" if i == k else None)


READING = {"cat-file", "show", "ls-tree", "show-ref", "rev-parse", "for-each-ref"}


def _crash_at_writing(H, k):
    """Dying before a command that only reads is the same as dying before the next one that writes."""
    count = [0]

    def hook(i, words):
        if READING & set(words):
            return None
        count[0] += 1
        return "crash" if count[0] == k + 1 else None
    H.on_command(hook)


def dying(H):
    """A process dies before any one of its git commands; the update is repeated by a new process."""
    realm = H.repo()
    what = H.pick("update", ["first"] + UPDATES)
    order = H.pick("order", ["tree first", "list first"])
    t = H.str("tag", 1, 1, "abc")

    def work():
        if what == "first":
            first_session(H, realm)
        else:
            tvl, us = update(H, realm, what, t)
            save(H, realm, tvl, us, order)
    # the undisturbed outcome, in a store of its own
    if what != "first":
        first_session(H, realm)
        H.restart()
    old = states(H, realm)
    H.restart()
    before = _recorded(H, realm)
    k = H.int("command", 0, H.bound("commands", 60))
    dead = False
    _crash_at(H, k)
    try:
        work()
    except H.Crash:
        dead = True
    H.on_command(None)
    if not dead:
        # the update is over before that command
        H.assume(False)
    H.reach("died")
    H.restart()
    after = _recorded(H, realm)
    for x in before:
        H.check(x in after, "what was recorded before is still recorded", what)
    for kind, name, oid in before:
        H.check(H.reachable(realm, oid), "what was recorded before is still reachable", what)
    try:
        now = states(H, realm)
    except Exception as e:
        now = None
        H.fail("the store can be read after the process died", f"{what}: {type(e).__name__} {str(e)[:80]}")
    # an undisturbed repetition
    H.restart()
    what_now = plain(now)
    work()
    H.restart()
    new = states(H, realm)
    for i, part in ((0, "trees"), (1, "datasets")):
        H.check(what_now[i] == plain(old)[i] or what_now[i] == plain(new)[i],
                f"old or new state of the {part}", what)
    H.check(_expected(H, what, new, t), "the repetition is complete", what)
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", what)
    try:
        got = states(H, realm)
    except RuntimeError:
        got = None
    H.check(got == new, "the repetition survives garbage collection", what)


def dying_twice(H):
    """A process dies, another one repeats the update and dies as well, a third one completes it."""
    realm = H.repo()
    what = H.pick("update", H.bound("updates", ["new file", "new dataset"]))
    t = H.str("tag", 1, 1, "abc")
    order = "tree first"

    def work():
        if what == "first":
            first_session(H, realm)
        else:
            tvl, us = update(H, realm, what, t)
            save(H, realm, tvl, us, order)
    if what != "first":
        first_session(H, realm)
        H.restart()
    old = plain(states(H, realm))
    H.restart()
    before = _recorded(H, realm)
    between = []
    for i in range(2):
        k = H.int(f"command{i}", 0, H.bound("writing commands", 30))
        dead = False
        _crash_at_writing(H, k)
        try:
            work()
        except H.Crash:
            dead = True
        H.on_command(None)
        if not dead:
            H.assume(False)
        H.restart()
        after = _recorded(H, realm)
        for x in before:
            H.check(x in after, "what was recorded before is still recorded", what)
        before = after
        try:
            between.append(plain(states(H, realm)))
        except Exception as e:
            H.fail("the store can be read after the process died", f"{what}: {type(e).__name__} {str(e)[:80]}")
        H.restart()
    H.reach("died twice")
    work()
    H.restart()
    new = states(H, realm)
    for now in between:
        for i, part in ((0, "trees"), (1, "datasets")):
            H.check(now[i] == old[i] or now[i] == plain(new)[i], f"old or new state of the {part}", what)
    H.check(_expected(H, what, new, t), "the repetition is complete", what)
    H.restart()
    for kind, name, oid in before:
        H.check(H.reachable(realm, oid), "what was recorded before is still reachable", what)


def _expected(H, what, new, t):
    tvl, us = plain(new)
    if tvl is None or us is None:
        return False
    text = [v for v, p, pp, e in tvl]
    want = {"new version": ["1", "2"], "new dataset": ["1", "1b"]}.get(what)
    if what == "prefix":
        want = ["1", "1"]
    if text != (want or ["1"]):
        return False
    root = dict(tvl[0][3][1])
    if what == "sub-dataset" and "sub/ds" not in root:
        return False
    r = root[""]
    level, files = r[2], dict(r[3])
    if what == "change level":
        return level == sorted([("ex", "1", "d"), ("ex", "2", t)])
    if what == "remove file":
        return sorted(files) == ["a", "d/e/c"]
    want = {"a": "a", "d/b": "d/b", "d/e/c": "d/e/c"}
    if what == "new file":
        want["d/new"] = t
    if sorted(files) != sorted(want):
        return False
    for p, x in want.items():
        have = [("ex", "1", x)]
        if what == "change file" and p == "d/b":
            have.append(("ex", "2", t))
        if files[p] != have:
            return False
    return level == [("ex", "1", "d")]
