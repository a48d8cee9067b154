"""The harness interface on the real code: concrete values, real git, real
files in a scratch directory.  Runs under the Python that runs /repo's tests.

    real.py            reads one JSON task per line from stdin, writes one
                       JSON result per line
    real.py FILE       replays one counterexample file
"""
import atexit
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Crash(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, detail):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class Skip(BaseException):
    pass


_RealPopen = subprocess.Popen


class Hooks:
    hook = None
    calls = 0
    base = 0
    dead = False


class HookedPopen(_RealPopen):
    def __init__(self, args, *a, **k):
        if Hooks.dead:
            raise Crash()
        n = Hooks.calls
        Hooks.calls += 1
        if Hooks.hook is not None:
            words = args if isinstance(args, (list, tuple)) else [args]
            act = Hooks.hook(n - Hooks.base, list(words))
            if act == "crash":
                Hooks.dead = True
                raise Crash()
            if act == "fail":
                args, k["shell"] = ["git", "--injected-failure"], False
        super().__init__(args, *a, **k)

    def __del__(self, *a, **k):
        try:
            super().__del__(*a, **k)
        except AttributeError:
            pass


class RealH:
    symbolic = False
    Crash = Crash

    def __init__(self, values, bounds, scratch):
        self.v = values
        self.bounds = bounds
        self.scratch = scratch
        self.names = {}
        self.obs = []
        self.n = 0
        self.remotes = {}
        self.others = {}
        self.restart()

    def restart(self):
        Hooks.dead = False
        Hooks.hook = None
        for n in list(sys.modules):
            if n.split(".")[0] == "dataladmetadatamodel":
                del sys.modules[n]
        # runs git to describe the working tree of the package; not under test,
        # and its commands must not be among those that fail
        version = types.ModuleType("dataladmetadatamodel._version")
        version.get_versions = lambda: {"version": "0+verif"}
        sys.modules[version.__name__] = version
        from session_names import Modules
        self.M = Modules(importlib.import_module)

    def bound(self, name, default=None):
        return self.bounds.get(name, default)

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _val(self, name, default):
        return self.v.get(self._name(name), default)

    def pick(self, name, options):
        options = list(options)
        return options[self._val(name, 0)]

    def bool(self, name):
        return self.pick(name, [False, True])

    def int(self, name, lo, hi):
        return self.pick(name, range(lo, hi + 1))

    def str(self, name, max_len, min_len=0, alpha="any"):
        return "".join(map(chr, self._val(name, [97] * min_len)))

    def bytes(self, name, max_len, min_len=0):
        return bytes(self._val(name, [97] * min_len))

    def sbool(self, name):
        return bool(self._val(name, [0])[0])

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=""):
        if not cond:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=""):
        raise CheckFailed(label, detail)

    def reach(self, label):
        pass

    def observe(self, value):
        self.obs.append(value)

    def observe_bag(self, values):
        self.obs.append(set(map(lambda v: Ordered(v), values)))

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    # -- environment
    def _run(self, argv, stdin=None):
        if isinstance(stdin, str):
            stdin = stdin.encode()
        keep, Hooks.hook = Hooks.hook, None
        dead, Hooks.dead = Hooks.dead, False
        calls = Hooks.calls
        try:
            p = subprocess.run(argv, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        finally:
            Hooks.hook, Hooks.dead, Hooks.calls = keep, dead, calls
        return p.returncode, p.stdout

    def repo(self, name=None, exact=None):
        self.n += 1
        p = f"{self.scratch}/w/{exact}" if exact else f"{self.scratch}/w/{name or 'repo'}{self.n}"
        os.makedirs(p)
        self._run(["git", "init", "-q", p])
        return p

    def directory(self, name="dir"):
        self.n += 1
        p = f"{self.scratch}/w/{name}{self.n}"
        os.makedirs(p)
        return p

    def spelled(self, realm, how):
        if how == "relative":
            return os.path.relpath(realm)
        head, _, tail = realm.rpartition("/")
        return {"same": realm, "detour": f"{head}/{tail}/../{tail}", "dots": f"{head}/./{tail}/.",
                "slashes": f"{head}//{tail}/"}[how]

    def local_directory(self, rel):
        os.makedirs(rel)            # the working directory is the scratch directory

    def git(self, realm, *args, stdin=None):
        if stdin is None:
            stdin = b""
        return self._run(["git", "--git-dir", realm + "/.git", *args], stdin)

    def configure(self, realm, key, value):
        self._run(["git", "--git-dir", realm + "/.git", "config", key, value])

    def remote(self, url, realm):
        self.remotes[url] = realm
        self._run(["git", "--git-dir", realm + "/.git", "config", "uploadpack.allowAnySHA1InWant",
                   "true"])
        n = int(os.environ.get("GIT_CONFIG_COUNT", "0"))
        os.environ[f"GIT_CONFIG_KEY_{n}"] = f"url.{realm}.insteadOf"
        os.environ[f"GIT_CONFIG_VALUE_{n}"] = url
        os.environ["GIT_CONFIG_COUNT"] = str(n + 1)

    def prune(self, realm):
        self._run(["git", "--git-dir", realm + "/.git", "prune", "--expire=now"])

    def refs(self, realm):
        rc, out = self._run(["git", "--git-dir", realm + "/.git", "for-each-ref",
                             "--format=%(objectname) %(refname)"])
        return {l.split(" ")[1]: l.split(" ")[0] for l in out.decode().splitlines()}

    def _closure(self, realm, oid, seen, missing):
        if oid in seen or oid in missing:
            return
        rc, out = self._run(["git", "--git-dir", realm + "/.git", "cat-file", "-t", oid])
        if rc != 0:
            missing.add(oid)
            return
        seen.add(oid)
        if out.strip() == b"tree":
            rc, out = self._run(["git", "--git-dir", realm + "/.git", "ls-tree", "-z", oid])
            for e in out.split(b"\0"):
                if e:
                    self._closure(realm, e.split(b"\t")[0].split(b" ")[2].decode(), seen, missing)

    def refs_closed(self, realm):
        seen, missing = set(), set()
        for oid in self.refs(realm).values():
            self._closure(realm, oid, seen, missing)
        return not missing

    def reachable(self, realm, oid):
        seen, missing = set(), set()
        for o in self.refs(realm).values():
            self._closure(realm, o, seen, missing)
        return oid in seen

    def has_object(self, realm, oid):
        return self._run(["git", "--git-dir", realm + "/.git", "cat-file", "-e", oid])[0] == 0

    def on_command(self, hook):
        Hooks.base = Hooks.calls
        Hooks.hook = hook

    def commands(self):
        return Hooks.calls

    def lock_held(self, realm):
        """Can another process take the lock?"""
        import fcntl
        path = realm + "/.git/datalad-metalad-write.lock"
        if not os.path.exists(path):
            return False
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                f = open(path, "a")
                try:
                    fcntl.lockf(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    os.write(w, b"0")
                except OSError:
                    os.write(w, b"1")
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        os.close(w)
        res = os.read(r, 1)
        os.close(r)
        return res == b"1"

    def lock_elsewhere(self, realm, work=None, seconds=0.7):
        import fcntl
        import time
        os.makedirs(realm + "/.git", exist_ok=True)
        r, w = os.pipe()
        held, locked = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                f = open(realm + "/.git/datalad-metalad-write.lock", "a")
                fcntl.lockf(f, fcntl.LOCK_EX)
                os.write(locked, b"x")
                time.sleep(seconds)
                if work is not None:
                    work()
                os.write(w, b"x")
            finally:
                os._exit(0)
        os.read(held, 1)
        os.set_blocking(r, False)
        self.others[realm] = (r, pid)

    def held_elsewhere(self, realm):
        if realm in self.others:
            try:
                os.read(self.others[realm][0], 1)
            except BlockingIOError:
                return True
            os.waitpid(self.others.pop(realm)[1], 0)
        return False

    def finish_elsewhere(self, realm):
        if realm in self.others:
            os.waitpid(self.others.pop(realm)[1], 0)

    def open_file(self, name="out", mode="wb"):
        os.makedirs(self.scratch + "/w", exist_ok=True)
        return open(f"{self.scratch}/w/{name}", mode)

    def file_bytes(self, f):
        f.flush()
        with open(f.name, "rb") as g:
            return g.read()


class Ordered:
    def __init__(self, v):
        self.v = v


def jsonable(x):
    if isinstance(x, Ordered):
        return jsonable(x.v)
    if isinstance(x, bool) or x is None or isinstance(x, (int, float, str)) and type(x) in (int, float, str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return {"bytes": list(x)}
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(y) for y in x), key=repr)
    if isinstance(x, dict):
        return {"dict": sorted(([jsonable(k), jsonable(v)] for k, v in x.items()), key=repr)}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    return str(x)


def execute(task):
    scratch = os.environ["SX_SCRATCH"]
    os.environ.update(HOME=scratch, XDG_CACHE_HOME=scratch + "/cache", TMPDIR=scratch + "/tmp",
                      GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0", GIT_CONFIG_COUNT="0",
                      GIT_ALLOW_PROTOCOL="file", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    os.makedirs(scratch + "/tmp", exist_ok=True)
    os.chdir(scratch)
    tempfile.tempdir = None
    sys.path[:0] = [REPO, VERIF, os.path.join(VERIF, "sx")]
    sys.dont_write_bytecode = True
    sys.unraisablehook = lambda *a: None
    import logging
    logging.disable(logging.CRITICAL)
    subprocess.Popen = HookedPopen
    # two modules of the code under test bind names at import time
    h = RealH(task["values"], task["bounds"], scratch)
    res = {"status": "ok", "label": "", "detail": ""}
    try:
        mod = importlib.import_module("harness." + task["harness"])
        getattr(mod, task["func"])(h)
    except CheckFailed as e:
        res.update(status="violation", label=e.label, detail=str(e.detail)[:500])
    except Skip:
        res["status"] = "infeasible"
    except Crash:
        res.update(status="violation", label="crash escaped the harness")
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "dataladmetadatamodel" in f.filename]
        res.update(status="violation", label=f"unexpected {type(e).__name__}",
                   detail=f"{str(e)[:300]} (in {where[-1].name if where else '?'})",
                   trace="".join(traceback.format_exception(e))[-2500:])
    res["obs"] = [jsonable(o) for o in h.obs]
    return res


def run_task(task, timeout=60):
    """In a forked child with its own scratch directory."""
    scratch = tempfile.mkdtemp(prefix="sxreal", dir=os.environ.get("SX_TMP", "/tmp"))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            signal.alarm(timeout)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("SX_DEBUG"):
                os.dup2(dn, 2)
            os.environ["SX_SCRATCH"] = scratch
            res = execute(task)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if not data:
        return {"status": "timeout", "label": "no result", "detail": "", "obs": []}
    return json.loads(data)


def main():
    sys.setrecursionlimit(5000)
    sys.path[:0] = [os.path.join(VERIF, "sx")]
    if len(sys.argv) > 1:
        task = json.load(open(sys.argv[1]))
        res = run_task(task)
        print(json.dumps({k: v for k, v in res.items() if k != "trace"}, indent=1))
        if res.get("trace"):
            print(res["trace"])
        if res["status"] == "violation":
            print("REPRODUCED:", res["label"])
            sys.exit(1)
        sys.exit(0)
    for line in sys.stdin:
        if line.strip():
            sys.stdout.write(json.dumps(run_task(json.loads(line))) + "\n")
            sys.stdout.flush()


if __name__ == "__main__":
    main()
