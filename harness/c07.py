"""The set of datasets maps identifiers to version lists."""
from uuid import UUID

from harness.util import record, uuid, version_state


def _vl(H, kind, i):
    vl = H.M.VersionList()
    if kind != "empty":
        vl.set_versioned_element(f"v{i}", str(i), H.M.MetadataPath(""), record(H, i, files=("f",)))
    if kind == "two":
        vl.set_versioned_element(f"w{i}", str(i), H.M.MetadataPath("p"), record(H, i + 50, files=None))
    return vl


def _compare(H, us, model, where):
    us.ensure_mapped()
    H.check(sorted(str(u) for u in us.uuids()) == sorted(str(u) for u in model), "identifiers", where)
    for u, want in model.items():
        vl = us.get_version_list(u)
        H.check(version_state(vl) == want, "version list", where)


def _reload(H, us, realm, how):
    if how == "purge":
        us.write_out(realm)
        us.purge()
        return us
    ref = us.write_out(realm)
    H.check(ref.class_name == "UUIDSet", "class of the reference")
    H.restart()
    if how == "top":
        return H.M.get_top_level_metadata_objects("git", realm)[1]
    return H.M.UUIDSet(None, realm, H.M.Reference("UUIDSet", ref.location))


IDS = [uuid(0), uuid(1), uuid(2 ** 48 - 1)]


def entries(H):
    """Sequences of setting, changing and releasing version lists, with a reload at any position."""
    realm = H.repo()
    model = {}
    us = H.M.UUIDSet()
    n = H.bound("sets", 2)
    stop = H.int("reload after", 0, n)
    if stop == 0:
        us = H.M.UUIDSet({IDS[0]: _vl(H, "one", 7)})
        model[IDS[0]] = version_state(_vl(H, "one", 7))
    how = H.pick("how", ["direct", "top", "purge"])
    for i in range(n):
        if i == stop and i:
            us = _reload(H, us, realm, how)
        u = H.pick("dataset", IDS)
        what = H.pick("what", ["set", "change", "unget"])
        if what == "set":
            kind = H.pick("list", ["empty", "one", "two", "two, stored"])
            vl = _vl(H, kind[:5].rstrip(","), i)
            if kind == "two, stored":
                vl.write_out(realm)
            us.set_version_list(u, vl)
            kind = kind[:5].rstrip(",")
            model[u] = version_state(_vl(H, kind, i))
        elif what == "change":
            if u not in us.uuids():
                H.check(u not in model, "identifier is known")
                H.check(isinstance(H.raises(us.get_version_list, u), KeyError),
                        "a missing dataset is reported as such")
                continue
            vl = us.get_version_list(u)
            vl.set_versioned_element("changed", str(i), H.M.MetadataPath("q"), record(H, 9, files=None))
            model[u] = version_state(vl)
            H.reach("changed")
        else:
            us.ensure_mapped()
            if u not in model:
                continue
            us.get_version_list(u)
            us.write_out(realm)
            us.unget_version_list(u)
        H.check((u in us.uuids()) == (u in model), "identifier is known")
    _compare(H, us, model, "in memory")
    us = _reload(H, us, realm, how)
    _compare(H, us, model, "stored")
    if H.bool("again"):
        H.restart()
        us = H.M.get_top_level_metadata_objects("git", realm)[1]
        us.set_version_list(uuid(77), _vl(H, "one", 8))
        model[uuid(77)] = version_state(_vl(H, "one", 8))
        us = _reload(H, us, realm, "top")
        _compare(H, us, model, "stored again")


HEX = ((48, 57), (97, 102))


def identifiers(H):
    """Arbitrary identifiers: what is stored for one is found for it, and for no other."""
    realm = H.repo()
    texts = {}
    us = H.M.UUIDSet()
    at = H.pick("place", ["first", "last", "within"])

    def make(name):
        s = H.str(name, H.bound("digits", 2), H.bound("digits", 2), HEX)
        t = {"first": s + "0" * (8 - len(s)) + "-0000-4000-8000-0123456789ab",
             "last": "0f000000-0000-4000-8000-0123456789ab"[:36 - len(s)] + s,
             "within": "0f000000-" + s + "0" * (4 - len(s)) + "-4000-8000-0123456789ab"}[at]
        return UUID(t), t
    a, s = make("one")
    b, t = make("other")
    same = s == t
    us.set_version_list(a, _vl(H, "one", 1))
    us.set_version_list(b, _vl(H, "two", 2))
    H.reach("same" if same else "different")
    want = {1: version_state(_vl(H, "one", 1)), 2: version_state(_vl(H, "two", 2))}
    us = _reload(H, us, realm, H.pick("how", ["direct", "top", "purge"]))
    us.ensure_mapped()
    ids = list(us.uuids())
    H.check(len(ids) == (1 if same else 2), "as many as were given")
    H.check(all(u == a or u == b for u in ids), "identifiers")
    H.check(version_state(us.get_version_list(UUID(t))) == want[2], "version list")
    if not same:
        H.check(version_state(us.get_version_list(UUID(s))) == want[1], "version list")
    c, r = make("absent")
    known = r == s or r == t
    H.check((c in us.uuids()) == known, "known exactly if it was given")
    e = H.raises(us.get_version_list, c)
    H.check((e is None) == known, "found exactly if it was given", str(type(e)))
    H.check(e is None or isinstance(e, KeyError), "a missing dataset is reported as such")
    H.observe(sorted(str(u) for u in ids))
