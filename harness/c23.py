"""A git command that fails is an error, and doing the same again leads to the undisturbed result."""
from pathlib import Path

from harness.top import UPDATES, add_run, first_session, nodes, plain, save, states, update


class Retry:
    """Runs steps, each once more if it fails; fails the k-th command"""

    def __init__(self, H, k):
        self.H, self.k, self.failed, self.error = H, k, False, False

    def start(self):
        def hook(i, words):
            if i == self.k:
                self.failed = True
                return "fail"
        self.H.on_command(hook)

    def __call__(self, f):
        before = self.failed
        try:
            return f()
        except Exception as e:
            self.H.check(self.failed and not before, "no error without a failing command",
                         type(e).__name__)
            self.error = True
            return f()

    def stop(self):
        self.H.on_command(None)
        self.H.assume(self.failed or self.k == 0)


def _first(H, realm, step):
    tvl, us, r = step(lambda: nodes(H, realm, 1, "1"))
    for p in (None, "a", "d/b", "d/e/c"):
        step(lambda: add_run(H, r, p, p or "d"))
    return tvl, us


def saving(H):
    """A whole session with one failing command anywhere in it."""
    what = H.pick("update", ["first"] + UPDATES)
    t = H.str("tag", 1, 1, "abc")
    order = H.pick("order", [0, 1])
    step = Retry(H, H.int("failing command", 0, H.bound("commands", 60)))

    def work(realm, step):
        tops = _first(H, realm, step) if what == "first" else update(H, realm, what, t, step)
        step(lambda: tops[order].write_out(realm))
        step(lambda: tops[1 - order].write_out(realm))
        step(lambda: H.M.flush_object_references(Path(realm)))
        return tops
    undisturbed, realm = H.repo(), H.repo()
    if what != "first":
        first_session(H, undisturbed)
        first_session(H, realm)
        H.restart()
    work(undisturbed, lambda f: f())
    H.restart()
    step.start()
    tops = work(realm, step)
    step.stop()
    H.check(not H.lock_held(realm), "the lock is released", what)
    H.reach("error" if step.error else "no error")
    want = plain(states(H, undisturbed))
    tops[0].purge()
    tops[1].purge()
    H.check(_content(H, tops) == want, "content in memory is what was stored", what)
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", what)
    H.check(plain(states(H, realm)) == want, "the result is as if nothing had failed", what)


class Again(Retry):
    """Runs steps until they succeed; fails the k-th command and another one `gap` commands later"""

    def __init__(self, H, k, gap):
        super().__init__(H, k)
        self.gap, self.count = gap, 0

    def start(self):
        def hook(i, words):
            if i == self.k or i == self.k + self.gap:
                if self.count and "-e" in words:
                    # a failing test for existence means that there is nothing
                    return None
                self.count += 1
                self.failed = self.count == 2
                return "fail"
        self.H.on_command(hook)

    def __call__(self, f):
        while True:
            before = self.count
            try:
                return f()
            except Exception as e:
                self.H.check(self.count > before, "no error without a failing command", type(e).__name__)
                self.error = True


def twice(H):
    """Two failing commands: in one step, in its repetition, or in different steps."""
    what = H.pick("update", H.bound("updates", ["first", "change file"]))
    order = H.pick("order", [0, 1])
    step = Again(H, H.int("failing command", 0, H.bound("commands", 60)), H.int("gap", 1, H.bound("gap", 6)))

    def work(realm, step):
        tops = _first(H, realm, step) if what == "first" else update(H, realm, what, "t", step)
        step(lambda: tops[order].write_out(realm))
        step(lambda: tops[1 - order].write_out(realm))
        step(lambda: H.M.flush_object_references(Path(realm)))
        return tops
    undisturbed, realm = H.repo(), H.repo()
    if what != "first":
        first_session(H, undisturbed)
        first_session(H, realm)
        H.restart()
    work(undisturbed, lambda f: f())
    H.restart()
    step.start()
    work(realm, step)
    step.stop()
    H.check(not H.lock_held(realm), "the lock is released", what)
    H.reach("error" if step.error else "no error")
    H.restart()
    H.prune(realm)
    H.check(H.refs_closed(realm), "everything that is referred to is there", what)
    H.check(plain(states(H, realm)) == plain(states(H, undisturbed)), "the result is as if nothing had failed", what)


def _content(H, tops):
    from harness.util import uuid_state, version_state
    return plain((version_state(tops[0]), uuid_state(tops[1])))


def reading(H):
    """Reading with one failing command gives an error or the right result, then the right result."""
    realm = H.repo()
    first_session(H, realm)
    H.restart()
    tvl, us = update(H, realm, H.pick("update", UPDATES), "t")
    save(H, realm, tvl, us)
    H.restart()
    want = states(H, realm)
    where = realm
    if H.bool("remote"):
        where = "https://host/x"
        H.remote(where, realm)
        if H.bool("read before"):
            states(H, where)
    H.restart()
    step = Retry(H, H.int("failing command", 0, H.bound("commands", 60)))
    step.start()
    tvl, us = step(lambda: H.M.get_top_level_metadata_objects("git", where))
    from harness.util import uuid_state, version_state
    H.check(tvl is not None and us is not None or where != realm and step.failed, "the store is there")
    if tvl is None or us is None:
        # whether a remote store has metadata is only known by trying to read it
        step.stop()
        H.restart()
        tvl, us = H.M.get_top_level_metadata_objects("git", where)
        step.start()
        step.k = -1
    a = step(lambda: version_state(tvl))
    b = step(lambda: uuid_state(us))
    H.on_command(None)
    H.assume(step.failed)
    H.check((a, b) == want, "the right result")
    H.restart()
    H.check(states(H, where) == want, "the right result later")


def objects(H):
    """Single objects of every kind: storing, unloading, loading, with one failing command."""
    from harness.c09 import KINDS, change, load, make, spots, state
    kind = H.pick("kind", KINDS)
    realm, other = H.repo(), H.repo()
    x = make(H, kind)
    if H.bool("stored before"):
        x.write_out(realm)
        x.purge()
        x.read_in()
        change(H, kind, x, H.pick("spot", spots(kind)))
    want = state(H, kind, x)
    step = Retry(H, H.int("failing command", 0, H.bound("object commands", 30)))
    step.start()
    what = H.pick("what", ["store", "unload and look", "copy"])
    ref = step(lambda: x.write_out(realm))
    if what == "unload and look":
        step(x.purge)
        H.check(step(lambda: state(H, kind, x)) == want, "content", kind)
    elif what == "copy":
        y = step(lambda: x.deepcopy(new_destination=other))
        H.check(step(lambda: state(H, kind, y)) == want, "content of the copy", kind)
    step.stop()
    H.restart()
    H.check(state(H, kind, load(H, kind, realm, ref)) == want, "stored content", kind)
    if what == "copy":
        H.check(state(H, kind, load(H, kind, other, y.reference)) == want, "stored content of the copy", kind)
