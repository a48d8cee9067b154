"""Shared by the harnesses: building objects, and reading them back."""

REC = ".datalad_metadata_root_record"
NOTHING = "<nothing>"


def sub(H, name):
    return H.M.module(name)


def conf(H, version="1", parameter=None):
    return H.M.ExtractorConfiguration(version, {"p": "x"} if parameter is None else parameter)


def run(H, m, tag, extractor="ex", version="1", parameter=None, time_stamp=1.5):
    """Add one extractor run whose content is `tag` to the metadata object m."""
    m.add_extractor_run(time_stamp, extractor, "name", "mail", conf(H, version, parameter),
                        {"tag": tag})


VARIANTS = [{}, {"version": "2"}, {"parameter": {"p": "y"}}, {"extractor": "other2"}]


def vary(H, m, tag):
    """Add a run to m: of the configuration that is there, or of another one, or of another extractor."""
    run(H, m, tag, **VARIANTS[H.pick("run", list(range(len(VARIANTS))))])


def meta(H, tag, **k):
    m = H.M.Metadata()
    run(H, m, tag, **k)
    return m


def runs(m):
    """The content of a metadata object: {extractor: [(version, parameter, time stamp, author,
    mail, content), ...]} with each extractor's runs in no particular order."""
    out = {}
    for name, instances in m.extractor_runs:
        out[name] = [(i.configuration.version, dict(i.configuration.parameter), i.time_stamp,
                      i.author_name, i.author_email, i.metadata_content) for i in instances]
    return out


def same(a, b):
    """Equal, and of equal types (1 is not True, and not 1.0)."""
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def same_runs(a, b):
    if len(a) != len(b):
        return False
    for name in a:
        if name not in b:
            return False
        x, y = a[name], b[name]
        if len(x) != len(y):
            return False
        for r in x:
            if not any(same(r, s) for s in y):
                return False
    return True


def tag(m):
    """The tag of an object made by meta() (or run() on it later)."""
    r = runs(m)
    if not r:
        return None
    return [x[5]["tag"] for x in list(r.values())[0]][0]


def tags(m):
    """All tags of a metadata object, by extractor, version and parameter p (if that is not x)."""
    out = []
    for name, rs in runs(m).items():
        for x in rs:
            p = x[1].get("p", "x")
            out.append((name, x[0] if p == "x" else x[0] + p, x[5]["tag"]))
    return sorted(out)


def file_items(ft):
    """{path: tags} of a file tree"""
    return {str(path): tags(ft.get_metadata(path)) for path, _ in ft.get_paths_recursive()}


def mrr_state(r):
    """What a metadata root record says, as plain data."""
    if r is None:
        return None
    dm = r.get_dataset_level_metadata()
    ft = r.get_file_tree()
    return (
        None if r.dataset_identifier is None else str(r.dataset_identifier),
        r.dataset_version,
        None if dm is None else tags(dm),
        [] if ft is None else sorted((str(p), tags(ft.get_metadata(p)))
                                     for p, _ in ft.get_paths_recursive()))


def dataset_state(dt):
    return sorted((str(p), mrr_state(dt.get_metadata_root_record(p))) for p, _ in dt.dataset_paths)


def version_state(vl):
    """{(version, prefix): (time stamp, content)} of a version list, as a sorted list."""
    out = []
    for v, p in list(vl.versions_and_prefix_paths()):
        ts, pp, el = vl.get_versioned_element(v, p)
        if hasattr(el, "dataset_paths"):
            s = ("tree", dataset_state(el))
        else:
            s = ("record", mrr_state(el))
        out.append((v, str(p), ts, str(pp), s))
    return sorted(out)


def uuid_state(us):
    return sorted((str(u), version_state(us.get_version_list(u))) for u in us.uuids())


def uuid(n):
    from uuid import UUID
    return UUID(f"00000000-0000-0000-0000-{n:012x}")


def record(H, n, dataset_metadata=True, files=()):
    """A metadata root record for dataset number n."""
    ft = None
    if files is not None:
        ft = H.M.FileTree()
        for f in files:
            ft.add_metadata(H.M.MetadataPath(f), meta(H, f"{n}:{f}"))
    return H.M.MetadataRootRecord(uuid(n), f"v{n}", meta(H, f"d{n}") if dataset_metadata else None,
                                  ft)


def load_tree(H, cls, realm, reference):
    return getattr(H.M, cls)(None, realm, H.M.Reference("MTreeNode", reference.location))
