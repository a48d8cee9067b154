"""References: round trip, equality, none-references, remote places."""
from harness.c09 import KINDS, change, load, make, spots, state

PATTERNS = ["git@", "git:", "http:", "https:", "ssh:"]


def round_trip(H):
    """References with any class and location text: serialisation, equality, assignment, none-references."""
    R = H.M.Reference
    c = H.str("class", H.bound("len", 2))
    loc = None if H.bool("no location") else H.str("location", H.bound("len", 2))
    r = R(c, loc)
    s = R.from_json_str(r.to_json_str())
    H.check(s.class_name == c and s.location == loc, "round trip")
    H.check(r == s and not (r != s), "equal after a round trip")
    t = R.from_json_obj(r.to_json_obj())
    H.check(t == r, "round trip of the object form")
    d, loc2 = H.str("other class", 1), None if H.bool("no other location") else H.str("other location", 1)
    u = R(d, loc2)
    H.check((r == u) == (c == d and loc == loc2), "equal exactly if class and location are")
    u.assign_from(r)
    H.check(u.class_name == c and u.location == loc and u == r, "assignment")
    u.location = "changed"
    H.check(r.location == loc, "assignment copies")
    H.check(r.is_none_reference() == (loc == "*None*"), "none-references")
    n = R.get_none_reference(c)
    H.check(n.is_none_reference() and n.class_name == c, "none-reference")
    m = R.from_json_str(n.to_json_str())
    H.check(m.is_none_reference() and m == n, "none-reference after a round trip")
    H.observe([s.class_name, s.location])


def near_none(H):
    """Locations that look like the one of a none-reference."""
    R = H.M.Reference
    n = len("*None*")
    s = H.str("location", n + 1, n - 1, alpha=H.pick("alphabet", [tuple((ord(c), ord(c)) for c in "*NOnoe "), "any"]))
    none = s == "*None*"
    r = R("Metadata", s)
    H.check(r.is_none_reference() == none, "none-references")
    H.check((r == R.get_none_reference("Metadata")) == none, "equal to a none-reference")
    if none:
        H.reach("none")


def places(H):
    """Which places are remote, for every text of a length."""
    R = H.M.Reference
    s = H.str("place", H.bound("len", 7), alpha="any")
    want = any(s.startswith(p) for p in PATTERNS)
    H.check(R.is_remote(s) == want, "remote exactly for the known kinds of addresses")
    H.check(R.is_local(s) == (not want), "local exactly if not remote")


def refuse(H):
    """Nothing is ever written to a remote place."""
    kind = H.pick("kind", KINDS)
    url = H.pick("pattern", PATTERNS) + H.str("rest", 1)
    realm = H.repo()
    x = make(H, kind)
    how = H.pick("how", ["new", "stored", "changed"])
    if how == "new":
        url += H.pick("end", ["", ".git", "/store/", "//host/a b.git/"])
    if how == "new" and H.bool("a directory has that name"):
        rel = "http:" + H.pick("name", ["x", "//x", "//x/.git"])
        H.local_directory(rel)
        url = rel
    if how != "new":
        x.write_out(realm)
        if how == "changed":
            change(H, kind, x, H.pick("spot", spots(kind)))
    seen = []
    H.on_command(lambda k, words: seen.append(words))
    e = H.raises(x.write_out, url)
    H.check(isinstance(e, RuntimeError), "writing to a remote place is refused", kind)
    H.check(not seen, "no command is run", kind)
    e = H.raises(lambda: x.deepcopy(new_destination=url))
    H.check(isinstance(e, RuntimeError), "copying to a remote place is refused", kind)
    for words in seen:
        H.check("update-ref" not in words and "hash-object" not in words and "mktree" not in words,
                "nothing is written by the refused copy", kind)
    H.on_command(None)
    # the object can still be stored where it belongs
    want = state(H, kind, x)
    ref = x.write_out(realm)
    x.purge()
    H.check(state(H, kind, x) == want, "still storable", kind)
    H.restart()
    H.check(state(H, kind, load(H, kind, realm, ref)) == want, "still storable", kind)
