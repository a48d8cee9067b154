"""The modelled environment of one path: files, git repositories, locks, clock.

The git model sits at the subprocess boundary: everything /repo does with git
goes through command lines and byte streams, which are interpreted here on
symbolic bytes.  It is compared with the real git by models_selftest.py and by
the replay of sampled paths in every run."""
import hashlib
import io
import os
import posixpath

import z3

from . import values as V
from .engine import E, Inconclusive
from .values import BV, SymBytes, SymStr, branch, bv, ceq, cin, crange, seq_eq, zand, zor


class Crash(BaseException):
    """The modelled process died (a crash point chosen by the harness)."""


def codes_of(x):
    """byte terms of a native or symbolic str/bytes"""
    if x is None:
        return ()
    if isinstance(x, SymBytes):
        return x.c
    if isinstance(x, SymStr):
        return x.encode().c if isinstance(x.encode(), SymBytes) else tuple(x.encode())
    if isinstance(x, str):
        return tuple(x.encode())
    return tuple(x)


def is_conc(c):
    for x in c:
        if not isinstance(x, int):
            return False
    return True


def lit(s):
    return tuple(s.encode())


# ------------------------------------------------------------ C quoting
_ESC = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 34: '"', 92: "\\"}
_UNESC = {ord(v): k for k, v in _ESC.items()}


def octal(b):
    if isinstance(b, int):
        return lit("\\%03o" % b)
    return (92, BV(48) + z3.LShR(b, BV(6)), BV(48) + (z3.LShR(b, BV(3)) & BV(7)),
            BV(48) + (b & BV(7)))


def cquote(name, fully=True):
    """git's quoting of a path in line-oriented output (fully: core.quotePath=true)"""
    out, need = [], False
    for b in name:
        if not fully and branch(crange(b, 0x80, 0xff)):
            out.append(b)
            continue
        if branch(zand([crange(b, 0x20, 0x7e), _ne(b, 34), _ne(b, 92)])):
            out.append(b)
            continue
        need = True
        for k, e in _ESC.items():
            if branch(ceq(b, k)):
                out.extend((92, ord(e)))
                break
        else:
            out.extend(octal(b))
    if not need:
        return tuple(name)
    return (34, *out, 34)


def _ne(a, b):
    r = ceq(a, b)
    return (not r) if isinstance(r, bool) else z3.Not(r)


def cunquote(c):
    """unquote_c_style: the bytes, or None if malformed"""
    out, i = [], 1
    n = len(c)
    while i < n:
        b = c[i]
        if branch(ceq(b, 34)):
            return tuple(out)
        if not branch(ceq(b, 92)):
            out.append(b)
            i += 1
            continue
        if i + 1 >= n:
            return None
        e = c[i + 1]
        for k, v in _UNESC.items():
            if branch(ceq(e, k)):
                out.append(v)
                i += 2
                break
        else:
            if not (i + 3 < n and branch(zand([crange(e, 48, 51), crange(c[i + 2], 48, 55),
                                               crange(c[i + 3], 48, 55)]))):
                return None
            d = [bv(x) - BV(48) for x in (e, c[i + 2], c[i + 3])]
            v = z3.simplify((d[0] << BV(6)) | (d[1] << BV(3)) | d[2])
            out.append(v.as_long() if z3.is_bv_value(v) else v)
            i += 4
    return None


def split_lines(c):
    out, cur = [], []
    for b in c:
        if branch(ceq(b, 10)):
            out.append(tuple(cur))
            cur = []
        else:
            cur.append(b)
    if cur:
        out.append(tuple(cur))
    return out


# ------------------------------------------------------------ git objects
class Tree:
    __slots__ = ("entries",)

    def __init__(self, entries):
        self.entries = entries     # list of (mode, type, id, name codes)


class Repo:
    def __init__(self, path):
        self.path = path
        self.objects = {}          # id -> codes | Tree
        self.refs = {}             # name -> id
        self.complete = True
        self.config = {}

    @property
    def fully(self):
        over = W.git.over.get("core.quotepath") if W.git.over else None
        return (over or self.config.get("core.quotepath", "true")).lower() not in ("false", "no", "off", "0")


class GitError(Exception):
    def __init__(self, msg, code=128):
        super().__init__(msg)
        self.code = code


class Ids:
    """Object ids: equal content, equal id; different content, different id."""

    def __init__(self):
        self.conc = {}
        self.sym = []
        self.n = 0

    def fresh(self, tag):
        self.n += 1
        return hashlib.sha1(b"%s %d" % (tag.encode(), self.n)).hexdigest()

    def blob(self, codes):
        if is_conc(codes):
            data = bytes(codes)
            oid = hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()
            for kind, c, sid in self.sym:
                if kind == "blob" and len(c) == len(codes):
                    if branch(seq_eq(c, codes)):
                        return sid
            self.conc[("blob", oid)] = codes
            return oid
        for kind, c, sid in self.sym:
            if kind == "blob" and len(c) == len(codes) and branch(seq_eq(c, codes)):
                return sid
        for (kind, oid), c in list(self.conc.items()):
            if kind == "blob" and len(c) == len(codes) and branch(seq_eq(c, codes)):
                return oid
        sid = self.fresh("sym blob")
        self.sym.append(("blob", tuple(codes), sid))
        return sid

    def tree(self, entries):
        if all(is_conc(e[3]) for e in entries):
            key = repr(sorted((e[0], e[2], bytes(e[3])) for e in entries))
            oid = hashlib.sha1(b"tree " + key.encode()).hexdigest()
            for kind, es, sid in self.sym:
                if kind == "tree" and self._same(es, entries):
                    return sid
            self.conc[("tree", oid)] = entries
            return oid
        for kind, es, sid in self.sym:
            if kind == "tree" and self._same(es, entries):
                return sid
        for (kind, oid), es in list(self.conc.items()):
            if kind == "tree" and self._same(es, entries):
                return oid
        sid = self.fresh("sym tree")
        self.sym.append(("tree", list(entries), sid))
        return sid

    @staticmethod
    def _same(a, b):
        if len(a) != len(b) or sorted((e[0], e[2]) for e in a) != sorted((e[0], e[2]) for e in b):
            return False
        return branch(zand([
            zor([seq_eq(x[3], y[3]) for y in b if (x[0], x[2]) == (y[0], y[2])])
            for x in a]))

    def digest(self, algo, codes):
        """hash functions other than of a git blob"""
        for kind, c, sid in self.sym:
            if kind == algo and len(c) == len(codes) and branch(seq_eq(c, codes)):
                return sid
        if is_conc(codes):
            name = hashlib.new(algo, bytes(codes)).hexdigest()
            self.conc[(algo, name)] = tuple(codes)
            return name
        for (kind, name), c in list(self.conc.items()):
            if kind == algo and len(c) == len(codes) and branch(seq_eq(c, codes)):
                return name
        self.n += 1
        sid = hashlib.new(algo, b"sym %d" % self.n).hexdigest()
        self.sym.append((algo, tuple(codes), sid))
        return sid


TYPE_OF_MODE = {"040000": "tree", "40000": "tree", "100644": "blob", "100755": "blob",
                "120000": "blob", "160000": "commit"}
HEX = set("0123456789abcdef")


def is_oid(s):
    return len(s) == 40 and set(s) <= HEX


class Git:
    def __init__(self, world):
        self.w = world
        self.repos = {}
        self.ids = Ids()
        self.remotes = {}      # url -> local path of the modelled remote
        self.log = []
        self.over = {}         # -c options of the command

    # ---- helpers
    def init(self, path):
        path = posixpath.normpath(posixpath.join("/cwd", path))
        if path not in self.repos:
            self.repos[path] = Repo(path)
        for d in ("objects/info", "objects/pack", "refs/heads", "refs/tags", "info"):
            self.w.fs.mkdirs(f"{path}/.git/{d}")
        return self.repos[path]

    def resolve(self, repo, name):
        if is_oid(name):
            return name
        peel = None
        for suffix, t in (("^{tree}", "tree"), ("^{blob}", "blob"), ("^{object}", None), ("^{}", None)):
            if name.endswith(suffix):
                name = name[:-len(suffix)]
                break
        if is_oid(name):
            return name
        for pre in ("", "refs/", "refs/heads/", "refs/tags/"):
            if pre + name in repo.refs:
                return repo.refs[pre + name]
        m = [o for o in repo.objects if len(name) >= 4 and o.startswith(name)]
        if len(m) == 1:
            return m[0]
        raise GitError(f"fatal: Not a valid object name {name}")

    def obj(self, repo, name):
        oid = self.resolve(repo, name)
        if oid not in repo.objects:
            raise GitError(f"fatal: bad object {name}")
        return oid, repo.objects[oid]

    def put_blob(self, repo, codes):
        oid = self.ids.blob(codes)
        repo.objects.setdefault(oid, tuple(codes))
        return oid

    def closure(self, repo, oid, seen, missing=None):
        if oid in seen:
            return
        if oid not in repo.objects:
            if missing is not None:
                missing.add(oid)
            return
        seen.add(oid)
        o = repo.objects[oid]
        if isinstance(o, Tree):
            for mode, typ, eid, name in o.entries:
                self.closure(repo, eid, seen, missing)

    def prune(self, path):
        repo = self.repos[posixpath.normpath(path)]
        seen, missing = set(), set()
        for oid in repo.refs.values():
            self.closure(repo, oid, seen, missing)
        repo.objects = {k: v for k, v in repo.objects.items() if k in seen}
        return missing

    # ---- listing
    def sorted_entries(self, t):
        if all(is_conc(e[3]) for e in t.entries):
            return sorted(t.entries, key=lambda e: bytes(e[3]) + (b"/" if e[1] == "tree" else b""))
        return list(t.entries)

    def listing(self, t, prefix=(), z=False, name_only=False, fully=True):
        out = []
        for mode, typ, oid, name in self.sorted_entries(t):
            if not name_only:
                out.extend(lit(f"{mode} {typ} {oid}\t"))
            full = tuple(prefix) + tuple(name)
            out.extend(full if z else cquote(full, fully))
            out.append(0 if z else 10)
        return out

    def listing_r(self, repo, t, show_trees, prefix=(), z=False, name_only=False, fully=True):
        out = []
        for e in self.sorted_entries(t):
            mode, typ, oid, name = e
            if typ != "tree" or show_trees:
                out.extend(self.listing(Tree([e]), prefix, z, name_only, fully))
            if typ == "tree":
                sub = repo.objects.get(oid)
                if sub is None:
                    raise GitError(f"fatal: not a tree object: {oid}")
                out.extend(self.listing_r(repo, sub, show_trees,
                                          tuple(prefix) + tuple(name) + (47,), z, name_only, fully))
        return out

    # ---- command execution: (returncode, stdout codes, stderr codes)
    def run(self, argv, stdin):
        argv = [a if isinstance(a, str) else a for a in argv]
        args = []
        for a in argv[1:]:
            if isinstance(a, (SymStr, SymBytes)):
                a = a.concrete("git argument")
            if isinstance(a, bytes):
                a = a.decode()
            if not isinstance(a, str):
                from . import rt
                a = rt.to_str(a)
                if isinstance(a, SymStr):
                    a = a.concrete("git argument")
            args.append(a)
        try:
            return self._run(args, stdin)
        except GitError as e:
            return e.code, (), lit(str(e) + "\n")

    def _run(self, args, stdin):
        git_dir = cwd = None
        self.over = over = {}
        i = 0
        while i < len(args) and args[i].startswith("-"):
            a = args[i]
            if a == "--git-dir":
                git_dir = args[i + 1]
                i += 2
            elif a.startswith("--git-dir="):
                git_dir = a[len("--git-dir="):]
                i += 1
            elif a == "-C":
                cwd = args[i + 1]
                i += 2
            elif a == "-c":
                k, _, v = args[i + 1].partition("=")
                over[k.lower()] = v
                i += 2
            elif a in ("-P", "--no-pager", "--no-replace-objects", "--bare"):
                i += 1
            else:
                raise Inconclusive(f"git option {a}")
        cmd, args = args[i], args[i + 1:]
        if cmd == "init":
            paths = [a for a in args if not a.startswith("-")]
            self.init(paths[0])
            return 0, lit(f"Initialized empty Git repository in {paths[0]}/.git/\n"), ()
        if git_dir is None:
            if cwd is None:
                raise GitError("fatal: not a git repository")
            git_dir = ".git"
        d = posixpath.normpath(posixpath.join("/cwd", cwd or "", git_dir))
        if d.endswith("/.git"):
            d = d[:-5]
        repo = self.repos.get(d)
        if repo is None:
            raise GitError(f"fatal: not a git repository: '{git_dir}'")
        f = getattr(self, "cmd_" + cmd.replace("-", "_"), None)
        if f is None:
            raise Inconclusive(f"git command {cmd}")
        return f(repo, args, stdin)

    def cmd_show(self, repo, args, stdin):
        args = [a for a in args if a not in ("--no-textconv", "--", "--raw")]
        if len(args) != 1 or args[0].startswith("-"):
            raise Inconclusive(f"git show {args}")
        oid, o = self.obj(repo, args[0])
        if isinstance(o, Tree):
            out = list(lit(f"tree {args[0]}\n\n"))
            for mode, typ, _, name in self.sorted_entries(o):
                out.extend(name + ((47,) if typ == "tree" else ()))
                out.append(10)
            return 0, out, ()
        return 0, o, ()

    def cmd_cat_file(self, repo, args, stdin):
        if len(args) == 1 and args[0].split("=")[0] in ("--batch", "--batch-check"):
            return self.cat_batch(repo, args[0], stdin)
        if len(args) != 2:
            raise Inconclusive(f"git cat-file {args}")
        what, name = args
        if what == "-e":
            try:
                oid = self.resolve(repo, name)
            except GitError:
                return 128, (), lit("fatal: Not a valid object name\n")
            return (0 if oid in repo.objects else 1), (), ()
        oid, o = self.obj(repo, name)
        typ = "tree" if isinstance(o, Tree) else "blob"
        if what == "-t":
            return 0, lit(typ + "\n"), ()
        if what == "-s" and typ == "blob":
            return 0, lit(f"{len(o)}\n"), ()
        if what == "-p":
            return 0, (self.listing(o, fully=repo.fully) if typ == "tree" else o), ()
        if what == "blob":
            if typ != "blob":
                raise GitError(f"fatal: git cat-file {name}: bad file")
            return 0, o, ()
        raise Inconclusive(f"git cat-file {args}")

    def cat_batch(self, repo, option, stdin):
        """cat-file --batch[-check][=format]"""
        option, _, fmt = option.partition("=")
        fmt = fmt or "%(objectname) %(objecttype) %(objectsize)"
        out = []
        for line in split_lines(codes_of(stdin)):
            if not is_conc(line):
                raise Inconclusive("symbolic object name")
            name = bytes(line).decode("utf8", "replace")
            try:
                oid, o = self.obj(repo, name)
            except GitError:
                out.extend(lit(name + " missing\n"))
                continue
            if isinstance(o, Tree):
                if option == "--batch" or "%(objectsize)" in fmt:
                    raise Inconclusive("git cat-file --batch of a tree")
                typ, size = "tree", ""
            else:
                typ, size = "blob", str(len(o))
            out.extend(lit(fmt.replace("%(objectname)", oid).replace("%(objecttype)", typ)
                           .replace("%(objectsize)", size) + "\n"))
            if option == "--batch":
                out.extend(o)
                out.append(10)
        return 0, out, ()

    def cmd_ls_tree(self, repo, args, stdin):
        opts = [a for a in args if a.startswith("-")]
        pos = [a for a in args if not a.startswith("-")]
        if set(opts) - {"-r", "-t", "-z", "--name-only", "--full-tree", "-rt"} or len(pos) != 1:
            raise Inconclusive(f"git ls-tree {args}")
        oid = self.resolve(repo, pos[0])
        o = repo.objects.get(oid)
        if not isinstance(o, Tree):
            raise GitError("fatal: not a tree object")
        z, n = "-z" in opts, "--name-only" in opts
        if "-r" in opts or "-rt" in opts:
            return 0, self.listing_r(repo, o, "-t" in opts or "-rt" in opts, (), z, n,
                                       repo.fully), ()
        return 0, self.listing(o, (), z, n, repo.fully), ()

    def cmd_hash_object(self, repo, args, stdin):
        opts = [a for a in args if a.startswith("-")]
        pos = [a for a in args if not a.startswith("-")]
        if set(opts) - {"-w", "--stdin", "--stdin-paths", "--no-filters", "--literally"}:
            raise Inconclusive(f"git hash-object {args}")
        w = "-w" in opts
        out = []
        contents = []
        if "--stdin" in opts:
            contents.append(codes_of(stdin))
        if "--stdin-paths" in opts:
            for line in split_lines(codes_of(stdin)):
                if not is_conc(line):
                    raise Inconclusive("symbolic file name")
                contents.append(self.w.fs.read_codes(bytes(line).decode()))
        for p in pos:
            contents.append(self.w.fs.read_codes(p))
        for c in contents:
            if c is None:
                # objects hashed before the failure were written
                return 128, out, lit("fatal: could not open\n")
            oid = self.ids.blob(c)
            if w:
                repo.objects.setdefault(oid, tuple(c))
            out.extend(lit(oid + "\n"))
        return 0, out, ()

    def cmd_mktree(self, repo, args, stdin):
        if set(args) - {"--missing", "-z"}:
            raise Inconclusive(f"git mktree {args}")
        z = "-z" in args
        data = codes_of(stdin)
        if z:
            lines, cur = [], []
            for b in data:
                if branch(ceq(b, 0)):
                    lines.append(tuple(cur))
                    cur = []
                else:
                    cur.append(b)
            if cur:
                lines.append(tuple(cur))
        else:
            lines = split_lines(data)
        entries = []
        for line in lines:
            # mode SP type SP id TAB name: the fixed fields are concrete
            k = None
            for j, b in enumerate(line):
                if not isinstance(b, int):
                    break
                if b == 9:
                    k = j
                    break
            if k is None:
                if is_conc(line):
                    raise GitError("fatal: input format error")
                # a symbolic character in the fixed fields
                if len(line) < 50 or not is_conc(line[:50]):
                    raise GitError("fatal: input format error")
                raise Inconclusive("symbolic tree header")
            fields = bytes(line[:k]).decode("utf8", "replace").split(" ")
            if len(fields) != 3 or not is_oid(fields[2]):
                raise GitError("fatal: input format error")
            mode, typ, oid = fields
            mode = mode.zfill(6)
            if TYPE_OF_MODE.get(mode) != typ:
                raise GitError("fatal: object type mismatch")
            name = line[k + 1:]
            if not z and name and branch(ceq(name[0], 34)):
                name = cunquote(name)
                if name is None:
                    raise GitError("fatal: invalid quoting")
            for b in name:
                if branch(ceq(b, 47)):
                    raise GitError("fatal: path contains slash")
            # C strings: a NUL ends the name
            for j, b in enumerate(name):
                if branch(ceq(b, 0)):
                    name = name[:j]
                    break
            o = repo.objects.get(oid)
            if o is not None:
                if ("tree" if isinstance(o, Tree) else "blob") != typ:
                    raise GitError("fatal: entry object type mismatch")
            elif "--missing" not in args:
                raise GitError("fatal: entry object is unavailable")
            entries.append((mode, typ, oid, tuple(name)))
        oid = self.ids.tree(entries)
        repo.objects.setdefault(oid, Tree(entries))
        return 0, lit(oid + "\n"), ()

    ZERO = "0" * 40

    def change_ref(self, repo, name, new, old=None):
        """Checks a change of a reference (to None: removal) and returns it."""
        if not name.startswith("refs/") or "//" in name or ".." in name or name.endswith(("/", ".lock")):
            if name.startswith("refs/"):
                raise GitError(f"fatal: update_ref failed for ref '{name}': refusing to update ref "
                               "with bad name")
            raise Inconclusive("update of a reference outside of refs/")
        now = repo.refs.get(name, self.ZERO)
        if old is not None and old != now:
            raise GitError(f"fatal: cannot lock ref '{name}'")
        if new is not None:
            if new not in repo.objects:
                raise GitError("fatal: trying to write ref with nonexistent object")
            if name.startswith("refs/heads/"):
                raise GitError("fatal: trying to write non-commit object to branch")
        for other in repo.refs:
            if other.startswith(name + "/") or name.startswith(other + "/"):
                raise GitError(f"fatal: cannot lock ref '{name}': '{other}' exists")
        return name, new

    def apply_refs(self, repo, changes):
        fs = self.w.fs
        for name, new in changes:
            p = f"{repo.path}/.git/{name}"
            if new is None:
                repo.refs.pop(name, None)
                fs.files.pop(p, None)
                # git removes directories that became empty, below the second level
                d = posixpath.dirname(p)
                while "/" in d.split("/.git/refs/")[-1] \
                        and not any(x.startswith(d + "/") for x in (*fs.files, *fs.dirs)):
                    fs.dirs.discard(d)
                    d = posixpath.dirname(d)
            else:
                repo.refs[name] = new
                fs.mkdirs(posixpath.dirname(p))
                fs.files[p] = lit(new + "\n")

    def cmd_update_ref(self, repo, args, stdin):
        args = [a for a in args if a not in ("--no-deref", "--create-reflog")]
        if args and args[0] == "-m":
            args = args[2:]
        if "--stdin" in args:
            return self.update_refs(repo, args, stdin)

        def value(x):
            return self.ZERO if x in ("", self.ZERO) else self.resolve(repo, x)
        if args and args[0] == "-d":
            old = value(args[2]) if len(args) > 2 else None
            if old == self.ZERO:
                raise GitError("fatal: delete with a zero value")
            try:
                self.apply_refs(repo, [self.change_ref(repo, args[1], None, old)])
            except GitError as e:
                return 1, (), lit(str(e) + "\n")
            return 0, (), ()
        if any(a.startswith("-") for a in args) or len(args) not in (2, 3):
            raise Inconclusive(f"git update-ref {args}")
        if args[1] == "":
            raise GitError("fatal: : not a valid SHA1")
        new = value(args[1])
        old = value(args[2]) if len(args) == 3 else None
        self.apply_refs(repo, [self.change_ref(repo, args[0], None if new == self.ZERO else new, old)])
        return 0, (), ()

    def update_refs(self, repo, args, stdin):
        """update-ref --stdin: all of the changes or none"""
        if set(args) - {"--stdin", "-z"}:
            raise Inconclusive(f"git update-ref {args}")
        data = codes_of(stdin)
        if not is_conc(data):
            raise Inconclusive("symbolic input of update-ref")
        text = bytes(data).decode("utf8", "replace")
        if '"' in text:
            raise Inconclusive("quoted input of update-ref")
        if "-z" in args:
            fields = text.split("\0")[:-1]
            lines = []
            while fields:
                verb, _, name = fields.pop(0).partition(" ")
                n = {"update": 2, "create": 1, "delete": 1, "verify": 1}.get(verb, 0)
                lines.append([verb, name] + fields[:n] if name else [verb])
                del fields[:n]
        else:
            lines = [x.split(" ") for x in text.split("\n") if x]
        changes, out, started, done = [], "", False, False
        seen, verified = set(), set()

        def value(x):
            return self.ZERO if x in ("", self.ZERO) else self.resolve(repo, x)
        for words in lines:
            verb = words[0]
            if verb in ("start", "prepare", "commit", "abort"):
                out += f"{verb}: ok\n"
                if verb == "start":
                    started = True
                elif verb == "abort":
                    changes, done = [], True
                else:
                    checked = [self.change_ref(repo, *c) for c in changes]
                    if verb == "commit":
                        self.apply_refs(repo, [c for c in checked if c[0] not in verified])
                        changes, done = [], True
                continue
            if verb == "option":
                continue
            name = words[1]
            if name in seen:
                raise GitError(f"fatal: multiple updates for ref '{name}' not allowed")
            seen.add(name)
            if verb == "update":
                new = value(words[2])
                old = value(words[3]) if len(words) > 3 and (words[3] or "-z" not in args) else None
            elif verb == "create":
                new, old = value(words[2]), self.ZERO
            elif verb in ("delete", "verify"):
                new = None
                old = value(words[2]) if len(words) > 2 and words[2] else \
                    (self.ZERO if verb == "verify" else None)
            else:
                raise GitError(f"fatal: unknown command: {verb}")
            changes.append((name, None if new == self.ZERO else new, old))
            if verb == "verify":
                verified.add(name)
        if not started and not done:
            checked = [self.change_ref(repo, *c) for c in changes]
            self.apply_refs(repo, [c for c in checked if c[0] not in verified])
        return 0, lit(out), ()

    def cmd_rev_parse(self, repo, args, stdin):
        pos = [a for a in args if not a.startswith("-")]
        if len(pos) != 1 or set(a for a in args if a.startswith("-")) - {"--verify", "-q", "--quiet"}:
            raise Inconclusive(f"git rev-parse {args}")
        try:
            oid = self.resolve(repo, pos[0])
            if pos[0].endswith("}") and oid not in repo.objects:
                raise GitError("fatal: no such object")
        except GitError:
            verify = "--verify" in args
            quiet = verify and ("-q" in args or "--quiet" in args)
            return (1 if quiet else 128), (() if verify else lit(pos[0] + "\n")), lit(
                "fatal: Needed a single revision\n")
        return 0, lit(oid + "\n"), ()

    def cmd_show_ref(self, repo, args, stdin):
        pos = [a for a in args if not a.startswith("-")]
        opts = set(a for a in args if a.startswith("-"))
        if opts - {"--verify", "-q", "--quiet", "-s", "--hash", "--exists"}:
            raise Inconclusive(f"git show-ref {args}")
        out, hit = [], False
        for n in sorted(repo.refs):
            if not pos or any(n == p or (n.endswith("/" + p) and "--verify" not in opts) for p in pos):
                hit = True
                if not opts & {"-q", "--quiet", "--exists"}:
                    out.extend(lit(repo.refs[n] + ("\n" if opts & {"-s", "--hash"} else f" {n}\n")))
        if "--verify" in opts and not opts & {"-q", "--quiet"}:
            # every one of them has to exist
            for p in pos:
                if p not in repo.refs:
                    raise GitError(f"fatal: '{p}' - not a valid ref")
        return (0 if hit else (2 if "--exists" in opts else 1)), out, ()

    def cmd_for_each_ref(self, repo, args, stdin):
        fmt = "%(objectname) %(objecttype)\t%(refname)"
        pos = []
        for a in args:
            if a.startswith("--format="):
                fmt = a[9:]
            elif a.startswith("-"):
                raise Inconclusive(f"git for-each-ref {args}")
            else:
                pos.append(a)
        out = []
        for n in sorted(repo.refs):
            if not pos or any(n == p or n.startswith(p.rstrip("/") + "/") for p in pos):
                o = repo.objects.get(repo.refs[n])
                t = "tree" if isinstance(o, Tree) else "blob"
                out.extend(lit(fmt.replace("%(objectname)", repo.refs[n]).replace(
                    "%(objecttype)", t).replace("%(refname)", n) + "\n"))
        return 0, out, ()

    def cmd_fetch(self, repo, args, stdin):
        pos = [a for a in args if not a.startswith("-")]
        opts = set(a for a in args if a.startswith("-"))
        if opts - {"-f", "--force", "--no-tags", "--no-recurse-submodules", "-q", "--quiet"} \
                or len(pos) != 2:
            raise Inconclusive(f"git fetch {args}")
        url, spec = pos
        path = self.remotes.get(url, url)
        src = self.repos.get(posixpath.normpath(path))
        if src is None:
            raise GitError("fatal: Could not read from remote repository.")
        forced = spec.startswith("+")
        spec = spec.lstrip("+")
        name, _, dst = spec.partition(":")
        if is_oid(name):
            oid = name
        else:
            oid = src.refs.get(name)
        if oid is None or oid not in src.objects:
            raise GitError("fatal: couldn't find remote ref")
        seen, missing = set(), set()
        self.closure(src, oid, seen, missing)
        if missing:
            raise GitError("fatal: remote error: bad object")
        for o in seen:
            repo.objects.setdefault(o, src.objects[o])
        if dst:
            if dst.startswith("refs/tags/") and repo.refs.get(dst, oid) != oid \
                    and not forced and not opts & {"-f", "--force"}:
                return 1, (), lit("! [rejected] (would clobber existing tag)\n")
            try:
                self.apply_refs(repo, [self.change_ref(repo, dst, oid)])
            except GitError as e:
                return 1, (), lit(str(e) + "\n")
        return 0, (), ()


# ------------------------------------------------------------ files
class FS:
    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/tmp"}
        self.fds = {}
        self.n = 0

    def descriptor(self, p):
        fd = 1000 + self.n
        self.n += 1
        self.fds[fd] = self.norm(p)
        return fd

    def norm(self, p):
        from . import rt
        if isinstance(p, int):
            if p in self.fds:
                return self.fds[p]
            raise Inconclusive("file descriptor")
        p = rt.call(os.fspath, p)
        if isinstance(p, (SymStr, SymBytes)):
            p = p.concrete("file name")
        if isinstance(p, bytes):
            p = p.decode()
        return posixpath.normpath(posixpath.join("/cwd", p))

    def mkdirs(self, p):
        p = self.norm(p)
        while p != "/":
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def mkdtemp(self, prefix="tmp"):
        self.n += 1
        p = f"/tmp/{prefix}{self.n}"
        self.mkdirs(p)
        return p

    def rmtree(self, p):
        p = self.norm(p)
        self.dirs = {d for d in self.dirs if d != p and not d.startswith(p + "/")}
        self.files = {f: c for f, c in self.files.items() if not f.startswith(p + "/")}

    def exists(self, p):
        p = self.norm(p)
        return p in self.dirs or p in self.files

    def read_codes(self, p):
        return self.files.get(self.norm(p))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        p = self.norm(file)
        if set(mode) - set("rwabtx+"):
            raise ValueError(f"invalid mode: {mode!r}")
        if encoding is not None and encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Inconclusive(f"file encoding {encoding}")
        if errors not in (None, "strict"):
            raise Inconclusive(f"file decoding errors={errors}")
        if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
            if "/.git/" in p and not p.endswith("-write.lock"):
                raise Inconclusive("writing into a git directory")
        if "w" in mode or "a" in mode or "x" in mode:
            if posixpath.dirname(p) not in self.dirs:
                raise FileNotFoundError(2, "No such file or directory", p)
            if p in self.dirs:
                raise IsADirectoryError(21, "Is a directory", p)
            if "x" in mode and p in self.files:
                raise FileExistsError(17, "File exists", p)
            if "a" not in mode or p not in self.files:
                self.files[p] = ()
        elif p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return VFile(self, p, mode, newline)


class VFile:
    """An open file, buffered as Python's files are: what is written is in the file system
    from flush, close, seek or the release of the object on (or when there is much of it)."""

    def __init__(self, fs, p, mode, newline=None):
        self.fs, self.name, self.mode = fs, p, mode
        self.binary = "b" in mode
        self.newline = newline
        self.buf = ()
        self.closed = False
        self.append = "a" in mode
        self.readable_ = "r" in mode or "+" in mode
        self.writable_ = "r" not in mode or "+" in mode
        self.pos = 0
        self.fd = None

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if not self.closed and self.buf and not W.dead and self.fs is W.fs:
            self._commit()

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _commit(self):
        if not self.buf:
            return
        buf, self.buf = self.buf, ()
        if self.name not in self.fs.files:      # deleted meanwhile
            return
        old = tuple(self.fs.files[self.name])
        at = len(old) if self.append else self.pos
        if at > len(old):
            old += (0,) * (at - len(old))
        self.fs.files[self.name] = old[:at] + buf + old[at + len(buf):]
        self.pos = at + len(buf)

    def close(self):
        if not self.closed:
            self._commit()
        self.closed = True

    def flush(self):
        self._open()
        self._commit()

    def fileno(self):
        self._open()
        if self.fd is None:
            self.fd = self.fs.descriptor(self.name)
        return self.fd

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def write(self, x):
        self._open()
        if not self.writable_:
            raise io.UnsupportedOperation("not writable")
        t = x.__class__
        if t is memoryview:
            x = bytes(x)
            t = bytes
        if self.binary and not issubclass(t, (bytes, bytearray)):
            raise TypeError(f"a bytes-like object is required, not '{t.__name__}'")
        if not self.binary and not issubclass(t, str):
            raise TypeError(f"write() argument must be str, not {t.__name__}")
        c = codes_of(x)
        if not self.binary and self.newline in ("\r", "\r\n"):
            out = []
            for b in c:
                if branch(ceq(b, 10)):
                    out.extend(lit(self.newline))
                else:
                    out.append(b)
            c = tuple(out)
        self.buf += tuple(c)
        if len(self.buf) > 8192:
            self._commit()
        return len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def seek(self, to, whence=0):
        self._open()
        self._commit()
        self.pos = to + (0, self.pos, len(self.fs.files.get(self.name, ())))[whence]
        return self.pos

    def tell(self):
        self._commit()
        return self.pos

    def truncate(self, size=None):
        self._commit()
        size = self.pos if size is None else size
        self.fs.files[self.name] = tuple(self.fs.files[self.name])[:size]
        return size

    def read(self, n=-1):
        self._open()
        if not self.readable_:
            raise io.UnsupportedOperation("not readable")
        self._commit()
        c = tuple(self.fs.files[self.name])[self.pos:]
        if n is not None and n >= 0:
            if not self.binary and any(not isinstance(b, int) or b > 127 or b == 13 for b in c):
                raise Inconclusive("reading a part of a text file")
            c = c[:n]
        self.pos += len(c)
        b = SymBytes.mk(c)
        if self.binary:
            return b
        s = V.decode_utf8(c)
        if self.newline is None and len(s):
            # universal newlines
            s = SymStr(SymStr.lift(s)).replace("\r\n", "\n")
            s = SymStr(SymStr.lift(s)).replace("\r", "\n") if len(s) else s
        return s

    def _lines(self):
        """The lines of the rest, by line ends only"""
        x = self.read()
        if not len(x):
            return []
        cls = SymBytes if self.binary else SymStr
        if not self.binary and self.newline not in (None, "\n"):
            raise Inconclusive("lines of a file with other line ends")
        out, start = [], 0
        c = cls.lift(x)
        for i, b in enumerate(c):
            if branch(ceq(b, 10)):
                out.append(cls.mk(c[start:i + 1]))
                start = i + 1
        if start < len(c):
            out.append(cls.mk(c[start:]))
        return out

    def __iter__(self):
        return iter(self._lines())

    def readlines(self, hint=-1):
        return self._lines()

    def readline(self, size=-1):
        at = self.pos
        ls = self._lines()
        if not ls:
            return b"" if self.binary else ""
        if self.binary:
            self.pos = at + len(ls[0])
        elif len(ls) > 1:
            raise Inconclusive("reading a part of a text file")
        return ls[0]


# ------------------------------------------------------------ the world
class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.fs = FS()
        self.git = Git(self)
        self.locks = {}            # path -> held by this process
        self.others = {}           # path of a lock another process holds -> what that does before it releases it
        self.dead = False
        self.calls = 0             # git processes started
        self.hook = None           # (k, argv) -> None | "fail" | "crash"
        self.now = 1_600_000_000.0
        self.argv_log = []

    def finish_other(self, path):
        """The other process ends its work and releases its lock."""
        work = self.others[path]
        if work is not None:
            keep, self.hook = self.hook, None
            calls = self.calls
            work()
            self.hook, self.calls = keep, calls
        del self.others[path]

    def command(self, argv, stdin):
        """One external process."""
        if self.dead:
            raise Crash()
        if E.aborted is not None:
            raise E.aborted
        k = self.calls
        self.calls += 1
        if self.hook is not None:
            act = self.hook(k, argv)
            if act == "crash":
                self.dead = True
                raise Crash()
            if act == "fail":
                return 1, (), lit("injected failure\n")
        name = argv[0] if isinstance(argv[0], str) else None
        if name != "git":
            raise Inconclusive(f"external program {argv[0]!r}")
        self.argv_log.append(argv)
        return self.git.run(argv, stdin)

    def shell(self, command, stdin):
        """sh -c for plain words and pipes; anything else is not modelled."""
        import shlex
        if isinstance(command, (SymStr, SymBytes)):
            for x in command.c:
                if isinstance(x, int):
                    continue
                if not branch(zor([crange(x, 97, 122), crange(x, 65, 90), crange(x, 48, 57),
                                   cin(x, [45, 46, 47, 95])])):
                    raise Inconclusive("shell metacharacter")
            command = command.concrete("shell command")
        if any(ch in command for ch in "$`;&<>*?[](){}!~#\n\\"):
            raise Inconclusive("shell syntax")
        rc, out, err = 0, codes_of(stdin), []
        for part in command.split("|"):
            words = shlex.split(part)
            rc, out, e = self.command(words, SymBytes.mk(out))
            err.extend(e)
        return rc, out, err


W = World()
