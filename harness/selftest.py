"""Operations of the language on symbolic values: the models that the checks rest on.
Every path's model is run natively, too, and has to give the same observations."""
import base64
import binascii
import bisect
import codecs
import collections
import copy
import dataclasses
import enum
import fnmatch
import functools
import heapq
import io
import itertools
import json
import operator
import os
import posixpath
import re
import shlex
import string
import textwrap
import typing
import uuid
from pathlib import Path, PurePosixPath


class _Thing:
    def __init__(self, text):
        self.text = text


class _Encoder(json.JSONEncoder):
    def default(self, o):
        return {"t": o.text} if isinstance(o, _Thing) else super().default(o)


class _Kind(enum.Enum):
    a = "a"
    slash = "/"


class _Point(typing.NamedTuple):
    x: str
    y: int


@dataclasses.dataclass(frozen=True, order=True)
class _Record:
    text: str


@functools.lru_cache(maxsize=None)
def _cached(s):
    return s + "."


@functools.singledispatch
def _single(x):
    return "other"


@_single.register
def _(x: str):
    return "text"


def deque_(s):
    d = collections.deque(s, maxlen=1)
    d.appendleft("x")
    return [*d]


def _do(H, op, *args):
    try:
        r = op(*args)
        if not isinstance(r, (str, bytes, int, float, type(None), list, tuple, dict)):
            r = [str(type(r).__name__), str(r)]
    except Exception as e:
        r = ["raises", type(e).__name__]
    if isinstance(r, (bytes, bytearray)):
        r = ["bytes"] + list(r)
    if isinstance(r, tuple):
        r = ["tuple"] + list(r)
    H.observe(r)


def _unquote(s):
    simple = {"n": 10, "t": 9, "r": 13, "a": 7}
    out = bytearray()
    it = iter(s)
    for c in it:
        if c != "\\":
            out += c.encode()
            continue
        c = next(it, "")
        if c and c in "01234567":
            out.append(int(c + next(it, "0"), 8))
        elif c:
            out.append(simple.get(c, ord(c) & 127))
    return bytes(out)


def _index(s):
    d = {"a": 1, "b": 2, "c": 3}
    return [d[c] for c in s]


def _update(s):
    d = {"a": "x", "b": "y", "": "z"}
    d[s] = "new"
    d.pop("b", None)
    return [len(d), sorted(d), list(d.values()), s in d]


def _match(s):
    match s:
        case "a" | "b":
            return "one"
        case "":
            return "none"
        case _:
            return "other"


def _groups(s):
    return [[k, list(g)] for k, g in itertools.groupby(s)]


def _reversed(s):
    return [s[::-1], "".join(reversed(s)), s[1:], s[:-1], s[-1:]]


TEXT = [
    lambda s: s.upper(), lambda s: s.lower(), lambda s: s.strip(), lambda s: s.strip("/."),
    lambda s: s.lstrip("a"), lambda s: s.rstrip("/"), lambda s: s.split(), lambda s: s.split("/"),
    lambda s: s.split("/", 1), lambda s: s.rsplit("/", 1), lambda s: s.partition("a"),
    lambda s: s.rpartition("/"), lambda s: s.splitlines(), lambda s: s.splitlines(True),
    lambda s: s.replace("a", "bb"), lambda s: s.replace("aa", "b", 1), lambda s: s.replace("", "-"),
    lambda s: s.count("a"), lambda s: s.count(""), lambda s: s.find("a"), lambda s: s.rfind("a"),
    lambda s: s.index("/"), lambda s: s.startswith(("a", "/")), lambda s: s.endswith("/"),
    lambda s: s.isdigit(), lambda s: s.isspace(), lambda s: s.isascii(),
    lambda s: s.removeprefix("a"), lambda s: s.removesuffix("/"), lambda s: s * 2, lambda s: s + "x" + s,
    lambda s: "a" in s, lambda s: s in "abc", lambda s: s < "b", lambda s: s >= "a/",
    lambda s: sorted(s), lambda s: sorted(set(s)), lambda s: sorted(s, reverse=True)[:1],
    lambda s: [min(s), max(s)], lambda s: s.encode(), lambda s: s.encode("ascii"),
    lambda s: s.encode("utf-8").decode("utf-8"), lambda s: list(enumerate(s)), lambda s: len(s.encode()),
    lambda s: s.join(["x", "y", "z"]), lambda s: ",".join(s), lambda s: s.zfill(3), lambda s: s.ljust(3, "."),
    lambda s: s.center(4), lambda s: s.title(), lambda s: s.capitalize(), lambda s: s.isidentifier(),
    lambda s: s.isalnum(), lambda s: s.isalpha(), lambda s: s.isprintable(), lambda s: s.swapcase(),
    lambda s: s.casefold(), lambda s: s.expandtabs(), lambda s: s.translate({97: "xy", 47: None}),
    lambda s: s.translate(str.maketrans("ab", "12")), lambda s: repr(s), lambda s: f"{s!r}:{s:>4}|{s}",
    lambda s: "%s-%r" % (s, s), lambda s: "{}{x!r}".format(s, x=s), lambda s: [ord(c) for c in s],
    lambda s: [chr(ord(c) + 1) for c in s], lambda s: [hex(ord(c)) for c in s],
    lambda s: ["%03o" % ord(c) for c in s], lambda s: [f"{ord(c):04x}" for c in s],
    lambda s: int(s), lambda s: int(s, 8), lambda s: int(s, 16), lambda s: float(s),
    _unquote, _index, _update, _match, _groups, _reversed,
    lambda s: json.dumps(s), lambda s: json.dumps({s: [s, None, True]}, sort_keys=True),
    lambda s: json.dumps(s, ensure_ascii=False), lambda s: json.loads('"' + s + '"'),
    lambda s: json.loads(s), lambda s: json.loads(json.dumps([s])),
    lambda s: str(PurePosixPath(s)), lambda s: list(PurePosixPath(s).parts),
    lambda s: str(PurePosixPath("x") / s), lambda s: str(PurePosixPath(s).parent),
    lambda s: PurePosixPath(s).name, lambda s: PurePosixPath(s).is_absolute(),
    lambda s: PurePosixPath(s).as_posix(), lambda s: PurePosixPath(s) == PurePosixPath("a"),
    lambda s: [str(p) for p in PurePosixPath(s).parents], lambda s: str(PurePosixPath("a", s, "b")),
    lambda s: os.path.join("a", s), lambda s: os.path.basename(s), lambda s: os.path.dirname(s),
    lambda s: os.path.normpath(s), lambda s: posixpath.split(s), lambda s: os.path.isabs(s),
    lambda s: shlex.quote(s), lambda s: re.sub("[a/]", "-", s), lambda s: re.split("/+", s),
    lambda s: re.findall("a+|/", s), lambda s: bool(re.match("^[a-z]*$", s)),
    lambda s: bool(re.fullmatch("(a|/)*", s)), lambda s: re.sub(r"(\W)", r"<\1>", s),
    lambda s: [m.span() for m in re.finditer("a|b", s)], lambda s: re.escape(s),
    lambda s: (re.search("(?P<x>[^/]+)/?", s) or re.search("", s)).groupdict(),
    lambda s: collections.Counter(s).most_common(1), lambda s: dict.fromkeys(s, 1),
    lambda s: {c: i for i, c in enumerate(s)}, lambda s: list(dict.fromkeys(s)),
    lambda s: [a + b for a, b in zip(s, s[1:])], lambda s: [*map(str.upper, s)],
    lambda s: "".join(filter(str.isdigit, s)), lambda s: all(c in "ab/" for c in s),
    lambda s: any(c == "/" for c in s), lambda s: s and s[0], lambda s: s or "none", lambda s: bool(s),
    lambda s: hash(s) == hash(str(s)), lambda s: copy.deepcopy([s, {s: s}]), lambda s: len({s, "a", ""}),
    lambda s: {"a": 1}.get(s), lambda s: {"a": 1}.get(s, 2), lambda s: {"a": "1", "b": "2"}.get(s, "3"),
    lambda s: {"a": [1]}.setdefault(s, [2]), lambda s: s in {"a", "b"}, lambda s: s in ("a", "/"),
    lambda s: ("a", "b", s).index(s), lambda s: [s, "a"].count("a"), lambda s: s == "a" or s != "/",
    lambda s: io.StringIO(s).read(1), lambda s: list(io.StringIO(s)), lambda s: str(uuid.UUID("0" * 30 + s)),
    lambda s: codecs.escape_decode(s.encode())[0], lambda s: codecs.escape_decode(("\\x" + s).encode())[0], lambda s: s.encode("latin-1"),
    lambda s: s.split("\n"), lambda s: s.rsplit(), lambda s: s.isupper(), lambda s: s.islower(),
    lambda s: list(collections.ChainMap({s: 1}, {"a": 2}).items()), lambda s: s in collections.UserDict(a=1),
    lambda s: collections.ChainMap({"a": 1}, {"b": 2}).get(s), lambda s: json.dumps(_Thing(s), cls=_Encoder),
    lambda s: json.dumps([_Thing(s)], default=lambda o: {o.text: 1}), lambda s: _Encoder(sort_keys=True).encode({s: _Thing(1), "a": 2}),
    lambda s: json.loads(json.dumps({s: s}), object_hook=lambda d: [*d.items()]),
    lambda s: json.loads(json.dumps([{s: 1, "a": 2}]), object_pairs_hook=lambda x: x),
    lambda s: str(PurePosixPath("a/b").with_name(s)), lambda s: PurePosixPath(s).suffix, lambda s: PurePosixPath(s).stem,
    lambda s: PurePosixPath("x/" + s).match("a*"), lambda s: str(PurePosixPath(s).joinpath("a", s)),
    lambda s: fnmatch.fnmatch(s, "a*"), lambda s: string.Template("$x-$x").substitute(x=s),
    lambda s: [*itertools.pairwise(s)], lambda s: ["".join(p) for p in itertools.permutations(s)],
    lambda s: [*itertools.accumulate(s)], lambda s: [*itertools.takewhile(lambda c: c != "/", s)],
    lambda s: operator.itemgetter(s)({"a": 1, "b": 2}), lambda s: _Kind(s).name, lambda s: _Kind.a == s,
    lambda s: getattr(_Thing(1), s, "none"), lambda s: vars(_Thing(s)), lambda s: _Point(s, 1) == _Point("a", 1),
    lambda s: _Point(s, 1)._asdict(), lambda s: hash(_Point(s, 1)) == hash((s, 1)), lambda s: repr(_Point(s, 1)),
    lambda s: repr(_Record(s)), lambda s: _Record(s) == _Record("a"), lambda s: len({_Record(s), _Record("a")}),
    lambda s: sorted([_Record(s), _Record("a")])[0].text, lambda s: _cached(s) + _cached(s), lambda s: _single(s),
    lambda s: functools.reduce(lambda x, y: y + x, s, ""), lambda s: [*map("{}!".format, s)],
    lambda s: bytes(s, "utf-8"), lambda s: str(s.encode(), "utf-8"), lambda s: s.encode().hex(),
    lambda s: bytes.fromhex(s.encode().hex()).decode(),
    lambda s: binascii.hexlify(s.encode()), lambda s: base64.b64encode(s.encode()),
    lambda s: s.encode("unicode_escape"),
    lambda s: textwrap.indent(s, "  "), lambda s: dict([(s, 1)]), lambda s: dict(a=1, **{s: 2}),
    lambda s: "".join(sorted(s, key=str.lower)), lambda s: (lambda **k: [*k])(**{s: 1}),
    lambda s: [*zip(*[iter(s)] * 2)], lambda s: [*itertools.zip_longest(s, "ab", fillvalue="")],
    lambda s: [*reversed([*s])], lambda s: deque_(s), lambda s: heapq.nsmallest(1, [s, "a"]),
    lambda s: bisect.bisect(["a", "b"], s), lambda s: next((i for i, c in enumerate(s) if c == "/"), -1),
    lambda s: [c for c in s if not c.isspace()], lambda s: slice(None, 1).indices(len(s)), lambda s: s[slice(1)],
    lambda s: f"{s:s}" f"{len(s)}", lambda s: f"{s[:1]:<3}|", lambda s: "{0}{0!s:.1}".format(s), lambda s: s.format(),
    lambda s: s % (), lambda s: "%(x)s" % {"x": s}, lambda s: "{x}".format_map({"x": s}),
]


def text(H):
    """One operation on a text of any characters."""
    i = H.int("operation", 0, len(TEXT) - 1)
    s = H.str("text", H.bound("len", 2), alpha=H.pick("characters", ["any", ((46, 48), (96, 98)),
                                                                     ((8, 34), (92, 92))]))
    _do(H, TEXT[i], s)


TWO = [
    lambda s, t: s + t, lambda s, t: s == t, lambda s, t: s < t, lambda s, t: s <= t, lambda s, t: t in s,
    lambda s, t: s.replace(t, "-"), lambda s, t: s.split(t), lambda s, t: s.startswith(t),
    lambda s, t: s.endswith(t), lambda s, t: s.find(t), lambda s, t: s.count(t), lambda s, t: s.strip(t),
    lambda s, t: s.partition(t), lambda s, t: sorted([s, t, "a"]), lambda s, t: sorted({s, t, "a"}),
    lambda s, t: len({s: 1, t: 2}), lambda s, t: {s: 1, t: 2}.get("a"), lambda s, t: {s: 1, "b": 2}.get(t),
    lambda s, t: list({s: 1, t: 2, "a": 3}.items()), lambda s, t: max(s, t), lambda s, t: min(s, t, "a"),
    lambda s, t: str(PurePosixPath(s) / t), lambda s, t: PurePosixPath(s) == PurePosixPath(t),
    lambda s, t: str(PurePosixPath(s).relative_to(t)), lambda s, t: PurePosixPath(s).is_relative_to(t),
    lambda s, t: PurePosixPath(s) < PurePosixPath(t), lambda s, t: os.path.join(s, t),
    lambda s, t: (s, t) < (t, s), lambda s, t: [s, t] == [t, s], lambda s, t: (s, 1) in {(t, 1): 2},
    lambda s, t: {s} & {t, "a"} == {"a"}, lambda s, t: len({s} | {t}), lambda s, t: sorted({s, "a"} - {t}),
    lambda s, t: {s} <= {t, "a"}, lambda s, t: {s: 1} == {t: 1}, lambda s, t: json.dumps({s: t, "a": 1}),
    lambda s, t: json.dumps({s: 1, t: 2}, sort_keys=True), lambda s, t: f"{s}/{t}".split("/"),
    lambda s, t: (s + "\n" + t).splitlines(), lambda s, t: "\t".join((s, t)).split("\t"),
    lambda s, t: "".join(x for x in s if x not in t), lambda s, t: [x for x in (s, t) if x],
    lambda s, t: dict(zip((s, t), (1, 2))), lambda s, t: {**{s: 1}, **{t: 2}}, lambda s, t: {s: 1} | {t: 2},
    lambda s, t: sorted({s: 1, "a": 2}.keys() & {t, "a"}), lambda s, t: (s or t) and t,
    lambda s, t: os.path.commonprefix([s, t]), lambda s, t: re.split(re.escape(t), s) if t else None,
    lambda s, t: (s > t) - (s < t), lambda s, t: s is t or s == t, lambda s, t: s.removeprefix(t),
    lambda s, t: s.join(t), lambda s, t: hash((s, t)) == hash((s, t)), lambda s, t: [s][s != t:],
    lambda s, t: s[len(t):], lambda s, t: bool(set(s) & set(t)), lambda s, t: sum(c in t for c in s),
    lambda s, t: " ".join(map(shlex.quote, (s, t))), lambda s, t: f"{s:{len(t) + 2}}|",
]


def two(H):
    i = H.int("operation", 0, len(TWO) - 1)
    a = H.pick("characters", ["any", ((46, 47), (97, 98))])
    s = H.str("first", H.bound("len", 2), alpha=a)
    t = H.str("second", H.bound("len", 2) - (1 if a == "any" else 0), alpha=a)
    _do(H, TWO[i], s, t)


def _edit(b):
    x = bytearray(b)
    x.append(7)
    x[0] = 65
    x += b
    x.insert(0, 66)
    del x[1]
    return [bytes(x), x.pop(), len(x), bytes(reversed(x)), x == b, x.decode("latin-1") if False else ""]


BYTES = [
    lambda b: b.decode(), lambda b: b.decode("ascii"), lambda b: b.hex(), lambda b: b[::-1], lambda b: b[0],
    lambda b: list(b), lambda b: sum(b), lambda b: b.split(b"/"), lambda b: b.strip(), lambda b: b.upper(),
    lambda b: b + b"x", lambda b: b"a" in b, lambda b: 97 in b, lambda b: b.startswith(b"a"),
    lambda b: b.replace(b"a", b"bb"), lambda b: b.splitlines(), lambda b: repr(b), lambda b: b < b"b",
    lambda b: bytes(x ^ 1 for x in b), lambda b: bytes([x // 2 for x in b]), lambda b: bytes(bytearray(b)),
    lambda b: "".join(map(chr, b)), lambda b: "".join(f"\\{x:03o}" if x > 126 else chr(x) for x in b),
    lambda b: [x >> 3 & 7 for x in b], lambda b: [x * 3 - 1 for x in b], lambda b: [divmod(x, 10) for x in b],
    lambda b: [-x for x in b], lambda b: [x % 7 == 0 for x in b], lambda b: bytes(x + 1 for x in b),
    lambda b: b.find(b"/"), lambda b: b.count(b"a"), lambda b: b.partition(b"a"), _edit,
    lambda b: re.findall(rb"[a-z]", b), lambda b: io.BytesIO(b).read(), lambda b: b.decode(errors="replace"),
    lambda b: str(b, "utf-8"), lambda b: bytes(memoryview(b)), lambda b: b.isascii(), lambda b: b == b"a",
    lambda b: b"".join([b, b"-", b]), lambda b: int(b), lambda b: len({b, b"a"}), lambda b: b"%s" % b,
    lambda b: [x if 0x20 <= x < 0x7f else 63 for x in b], lambda b: max(b), lambda b: sorted(b),
    lambda b: [{97: 1, 98: 2, 99: 3}.get(x, 0) for x in b], lambda b: [x in (97, 98) for x in b],
    lambda b: [f"{x}:{x:x}:{x:>4}" for x in b], lambda b: ["%d %s" % (x, x) for x in b],
    lambda b: [(x & 0x0f) << 4 | x >> 4 for x in b], lambda b: [x & ~3 for x in b], lambda b: [100 - x for x in b],
]


def octets(H):
    i = H.int("operation", 0, len(BYTES) - 1)
    b = H.bytes("bytes", H.bound("len", 2))
    _do(H, BYTES[i], b)


REFS = ["refs/datalad/x", "refs/datalad/y", "refs/tags/t", "refs/datalad", "refs/none"]


def git(H):
    """Commands of git on a small store: exit codes and outputs."""
    a, b = H.repo("a"), H.repo("b")
    H.remote("https://b.example/store", b)
    ids = []

    def put(data, realm=a):
        rc, out = H.git(realm, "hash-object", "-w", "--stdin", stdin=data)
        ids.append(out.decode().strip())
        return ids[-1]

    def run(*args, stdin=None, realm=a):
        rc, out = H.git(realm, *args, stdin=stdin)
        out = out.decode("latin-1")
        for i, x in enumerate(ids):
            if x in out:
                out = out.replace(x, f"<{i}>")
        if rc:
            out = ""
        H.observe([rc, out])
    s = H.str("content", 2, alpha=((103, 104), (10, 10)))
    one, two = put(s.encode()), put(b"second\n")
    name = H.str("name", 1, 1, alpha=((33, 33), (34, 34), (92, 92), (195, 195), (122, 122)))
    entries = f'100644 blob {one}\t"\\{ord(name):03o}"\n'.encode() if H.bool("escaped") else \
        f"100644 blob {one}\t".encode() + name.encode() + b"\n"
    rc, out = H.git(a, "mktree", stdin=entries)
    H.observe(rc)
    if rc:
        return
    ids.append(out.decode().strip())
    tree = ids[-1]
    rc, out = H.git(a, "mktree", stdin=f"040000 tree {tree}\tsub\n100644 blob {two}\tfile\n".encode())
    ids.append(out.decode().strip())
    upper = ids[-1]
    H.git(a, "update-ref", "refs/datalad/x", upper)
    ref = H.pick("ref", REFS)
    none = "0" * 40
    gone = "1" * 40
    steps = [
        ("show", one), ("show", "refs/datalad/x"), ("cat-file", "-p", upper), ("cat-file", "-p", one),
        ("cat-file", "-t", ref), ("cat-file", "-s", two), ("cat-file", "-e", gone), ("cat-file", "blob", one),
        ("cat-file", "blob", tree), ("cat-file", "-e", one), ("ls-tree", tree), ("ls-tree", "-z", tree),
        ("ls-tree", "-r", upper), ("ls-tree", "-rt", "refs/datalad/x"), ("ls-tree", "--name-only", tree),
        ("ls-tree", "-r", "-z", "--name-only", upper), ("-c", "core.quotepath=false", "ls-tree", tree),
        ("ls-tree", one), ("ls-tree", gone), ("rev-parse", ref), ("rev-parse", "--verify", "-q", ref),
        ("rev-parse", "--verify", ref), ("rev-parse", gone), ("rev-parse", "--verify", gone + "^{object}"),
        ("show-ref",), ("show-ref", ref), ("show-ref", "--verify", ref), ("show-ref", "-q", "--verify", ref),
        ("show-ref", "-s", "x"), ("for-each-ref", "--format=%(objectname) %(refname)", "refs/datalad"),
        ("update-ref", ref, two), ("update-ref", ref, gone), ("update-ref", ref, none), ("update-ref", ref, ""),
        ("update-ref", ref, two, none), ("update-ref", ref, two, upper), ("update-ref", ref, two, ""),
        ("update-ref", "-d", ref), ("update-ref", "-d", ref, upper), ("update-ref", "-d", ref, two),
        ("update-ref", "-m", "why", ref, tree), ("update-ref", "refs/x//y", two), ("update-ref", "refs/x.lock", two),
    ]
    fed = [
        (("mktree",), f"100644 blob {gone}\tx\n"), (("mktree", "--missing"), f"100644 blob {gone}\tx\n"),
        (("mktree",), f"040000 tree {one}\tx\n"), (("mktree",), "nonsense\n"), (("mktree",), ""),
        (("mktree",), f"100644 blob {one}\ta/b\n"), (("mktree",), f"100644 blob {one}\tx\n100644 blob {two}\ta\n"),
        (("mktree", "-z"), f"100644 blob {one}\t\"x\0"), (("hash-object", "--stdin"), "second\n"),
        (("cat-file", "--batch"), f"{one}\nnone\n{two}\n"), (("cat-file", "--batch-check"), f"{one}\nrefs/none\n"),
        (("update-ref", "--stdin"), f"update {ref} {two}\ndelete refs/datalad/x {upper}\n"),
        (("update-ref", "--stdin"), f"create {ref} {two}\n"), (("update-ref", "--stdin"), f"verify {ref}\n"),
        (("update-ref", "--stdin"), f"update {ref} {two} {upper}\n"),
        (("update-ref", "--stdin"), f"update refs/datalad/y {one}\ndelete {ref}\n"),
        (("update-ref", "--stdin"), f"start\nupdate {ref} {two}\nprepare\ncommit\n"),
        (("update-ref", "--stdin"), f"start\nupdate {ref} {two}\n"),
        (("update-ref", "-z", "--stdin"), f"update {ref}\0{two}\0\0"),
        (("update-ref", "-z", "--stdin"), f"create {ref}\0{two}\0"),
    ]
    how = H.pick("kind", ["plain", "input", "fetch"])
    if how == "plain":
        run(*H.pick("command", steps))
    elif how == "input":
        args, data = H.pick("command", fed)
        rc, out = H.git(a, *args, stdin=data.encode())
        if args[0] == "mktree" and rc == 0:
            run("ls-tree", out.decode().strip())
        else:
            for i, x in enumerate(ids):
                out = out.replace(x.encode(), b"<%d>" % i)
            H.observe([rc, out if rc == 0 else b""])
    else:
        H.git(b, "hash-object", "-w", "--stdin", stdin=b"remote\n")
        ids.append(put(b"remote\n", b))
        H.git(b, "update-ref", "refs/datalad/x", ids[-1])
        H.git(b, "update-ref", "refs/tags/t", ids[-1])
        H.git(a, "update-ref", "refs/tags/t", one)
        spec = H.pick("specification", ["refs/datalad/x", ids[-1], "refs/none", ids[-1] + ":", gone,
                                        "refs/datalad/x:" + ref, "+refs/datalad/x:" + ref,
                                        "refs/tags/t:refs/tags/t", "refs/tags/t:refs/heads/t"])
        force = H.pick("options", [(), ("-f",), ("--force", "--no-tags", "-q")])
        run("fetch", *force, "https://b.example/store", spec)
        run("cat-file", "-e", ids[-1])
    run("for-each-ref", "--format=%(objectname) %(refname)")
