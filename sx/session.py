"""The harness interface, in its symbolic form, and the execution of one path."""
import os
import re
import sys
import traceback

import z3

from . import models, rt, values as V, world
from .engine import E, Inconclusive, Infeasible, KnownPathEnd, PathControl, Violation, WIDTH
from .instrument import Importer
from .session_names import Modules
from .values import BV, SymBool, SymBytes, SymDict, SymInt, SymSet, SymStr, mkbool, zand, zor
from .world import Crash, W

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALPHA = {
    # every code point that UTF-8 can carry
    "any": ((0, 0xd7ff), (0xe000, 0x10ffff)),
    # a git path component: no NUL, no slash
    "name": ((1, 46), (48, 0xd7ff), (0xe000, 0x10ffff)),
    "path": ((1, 0xd7ff), (0xe000, 0x10ffff)),
    "ascii": ((32, 126),),
    "word": ((97, 99), (46, 47)),
    "ab": ((97, 98),),
    "abc": ((97, 99),),
    "hex": ((48, 57), (97, 102)),
    "printname": ((32, 46), (48, 126)),
}


class VersionModule:
    """dataladmetadatamodel._version shells out to git; it is not under test."""

    @staticmethod
    def get_versions():
        return {"version": "0+verif"}


class Bag:
    def __init__(self, values):
        self.values = list(values)


def _spelled(realm, how):
    head, _, tail = realm.rpartition("/")
    return {"same": realm, "detour": f"{head}/{tail}/../{tail}", "dots": f"{head}/./{tail}/.",
            "slashes": f"{head}//{tail}/"}[how]


class SymH:
    symbolic = True
    Crash = Crash

    def __init__(self, bounds):
        self.bounds = bounds
        self.obs = []
        self.reached = set()
        self.names = {}
        self.nrepo = 0
        self.restart()

    # -- code under test
    def restart(self):
        """A new process: all module state is gone, the storage stays."""
        W.dead = False
        W.hook = None
        W.locks = {}
        self.imp = Importer({"dataladmetadatamodel": REPO}, make_overrides())
        self.M = Modules(self.imp.load)

    def bound(self, name, default=None):
        return self.bounds.get(name, default)

    # -- inputs
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def pick(self, name, options):
        options = list(options)
        name = self._name(name)
        var = z3.BitVec(f"{name}", WIDTH)
        i = E.choose(var, len(options))
        E.inputs[name] = ("pick", i)
        return options[i]

    def bool(self, name):
        return self.pick(name, [False, True])

    def int(self, name, lo, hi):
        return self.pick(name, range(lo, hi + 1))

    def _codes(self, name, n, alpha):
        ranges = ALPHA[alpha] if isinstance(alpha, str) else alpha
        out = []
        for i in range(n):
            c = z3.BitVec(f"{name}[{i}]", WIDTH)
            dom = zor([V.crange(c, lo, hi) for lo, hi in ranges])
            E.add(dom)
            E.facts[dom.get_id()] = True
            E.keep.append(dom)
            out.append(c)
        if n:
            E.model = None
        return out

    def str(self, name, max_len, min_len=0, alpha="any"):
        name = self._name(name)
        n = min_len + E.choose(z3.BitVec(f"len({name})", WIDTH), max_len - min_len + 1)
        c = self._codes(name, n, alpha)
        E.inputs[name] = ("str", c)
        return SymStr.mk(c)

    def bytes(self, name, max_len, min_len=0):
        name = self._name(name)
        n = min_len + E.choose(z3.BitVec(f"len({name})", WIDTH), max_len - min_len + 1)
        c = self._codes(name, n, ((0, 255),))
        E.inputs[name] = ("bytes", c)
        return SymBytes.mk(c)

    def sbool(self, name):
        """a symbolic truth value (decided by the solver where it is used)"""
        name = self._name(name)
        b = z3.BitVec(name, WIDTH)
        E.add(z3.ULE(b, BV(1)))
        E.inputs[name] = ("bool", [b])
        return SymBool(b == 1)

    # -- assertions
    def assume(self, cond):
        E.assume(V.zbool(cond))

    def check(self, cond, label, detail=""):
        if isinstance(cond, rt.SymHash):
            cond = True
        E.prove(V.zbool(cond) if isinstance(cond, SymBool) else bool(cond), label, detail)

    def fail(self, label, detail=""):
        E.prove(False, label, detail)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, value):
        self.obs.append(value)

    def observe_bag(self, values):
        """several values whose order is not defined"""
        self.obs.append(Bag(values))

    def raises(self, f, *a, **k):
        """The exception the call ends with, or None."""
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    # -- environment
    def repo(self, name=None, exact=None):
        self.nrepo += 1
        p = f"/w/{exact}" if exact else f"/w/{name or 'repo'}{self.nrepo}"
        if exact:
            W.fs.mkdirs(p)
        W.git.init(p)
        return p

    def directory(self, name="dir"):
        self.nrepo += 1
        p = f"/w/{name}{self.nrepo}"
        W.fs.mkdirs(p)
        return p

    def spelled(self, realm, how):
        """Another way to write the path of a store."""
        if how == "relative":
            return "../" + realm[1:]
        return _spelled(realm, how)

    def local_directory(self, rel):
        """A directory relative to the working directory of the process."""
        W.fs.mkdirs(W.fs.norm(rel))

    def git(self, realm, *args, stdin=None):
        """A git command of the harness itself: (exit code, output bytes)."""
        rc, out, err = W.git.run(["git", "--git-dir", realm + "/.git", *args], stdin)
        return rc, SymBytes.mk(out)

    def configure(self, realm, key, value):
        W.git.repos[realm].config[key.lower()] = value

    def remote(self, url, realm):
        W.git.remotes[url] = realm

    def prune(self, realm):
        """Garbage-collect: unreferenced objects are gone."""
        W.git.prune(realm)

    def refs_closed(self, realm):
        """Is everything the references lead to present?"""
        repo = W.git.repos[realm]
        missing = set()
        seen = set()
        for oid in repo.refs.values():
            W.git.closure(repo, oid, seen, missing)
        return not missing

    def refs(self, realm):
        return dict(W.git.repos[realm].refs)

    def has_object(self, realm, oid):
        return oid in W.git.repos[realm].objects

    def reachable(self, realm, oid):
        repo = W.git.repos[realm]
        seen = set()
        for o in repo.refs.values():
            W.git.closure(repo, o, seen, set())
        return oid in seen

    def on_command(self, hook):
        """hook(k, words) for the k-th external process from now on; it may
        return "fail" or "crash"."""
        base = W.calls
        if hook is None:
            W.hook = None
        else:
            W.hook = lambda k, argv: hook(k - base, [x for x in argv])

    def commands(self):
        return W.calls

    def objects_exact(self):
        return True

    def lock_held(self, realm):
        return bool(W.locks.get(realm + "/.git/datalad-metalad-write.lock"))

    def lock_elsewhere(self, realm, work=None, seconds=0.7):
        """Another process takes the lock, which is free; it works and releases it - after
        a while, or when this process waits for it."""
        W.fs.mkdirs(realm + "/.git")
        W.others[realm + "/.git/datalad-metalad-write.lock"] = work

    def held_elsewhere(self, realm):
        return realm + "/.git/datalad-metalad-write.lock" in W.others

    def finish_elsewhere(self, realm):
        if self.held_elsewhere(realm):
            W.finish_other(realm + "/.git/datalad-metalad-write.lock")

    def open_file(self, name="out", mode="wb"):
        W.fs.mkdirs("/w")
        return W.fs.open(f"/w/{name}", mode)

    def file_bytes(self, f):
        f.flush()
        return SymBytes.mk(W.fs.files[f.name])

    def cache_path(self, url):
        return None


_OV = None


def make_overrides():
    global _OV
    if _OV is None:
        _OV = models.overrides()
        _OV["dataladmetadatamodel._version"] = VersionModule
        imp = Importer({}, _OV)
        models.os.path = imp.load("posixpath")
        _OV["os.path"] = models.os.path
    return dict(_OV)


# ---------------------------------------------------------------- one path
def model_value(x, m):
    """The value of x under a model, in JSON-able form."""
    def code(t):
        return t if isinstance(t, int) else m.eval(t, model_completion=True).as_long()
    if type(x) is Bag:
        return sorted((model_value(y, m) for y in x.values), key=repr)
    if isinstance(x, SymStr):
        return "".join(chr(code(t)) for t in x.c)
    if isinstance(x, SymBytes):
        return {"bytes": [code(t) for t in x.c]}
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.z, model_completion=True))
    if isinstance(x, SymInt):
        return code(x.z)
    if isinstance(x, bytes):
        return {"bytes": list(x)}
    if isinstance(x, (set, frozenset, SymSet)):
        return sorted((model_value(y, m) for y in x), key=repr)
    if isinstance(x, dict):
        return {"dict": sorted(([model_value(k, m), model_value(v, m)] for k, v in x.items()),
                               key=repr)}
    if isinstance(x, (list, tuple)):
        return [model_value(y, m) for y in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return str(rt.deep_concrete(rt.to_str(x)))


def input_values(m):
    out = {}
    for n, (kind, v) in E.inputs.items():
        if kind == "pick":
            out[n] = v
        else:
            out[n] = [m.eval(t, model_completion=True).as_long() for t in v]
    return out


def run_path(harness, func, prefix, bounds, deadline=None, want_values=False):
    """Execute one path.  Returns a dict describing how it ended."""
    E.reset(prefix)
    E.deadline = deadline
    W.reset()
    res = {"status": "ok", "label": "", "detail": ""}
    h = None
    try:
        h = SymH(bounds)
        imp = Importer({"harness": VERIF, "dataladmetadatamodel": REPO}, make_overrides())
        imp.load("harness")
        mod = imp.load("harness." + harness)
        getattr(mod, func)(h)
        if E.aborted is not None:
            raise E.aborted
    except PathControl as e:
        exc = E.aborted if E.aborted is not None else e
        if isinstance(exc, Violation):
            res.update(status="violation", label=exc.label, detail=str(exc.detail))
        elif isinstance(exc, Infeasible):
            res["status"] = "infeasible"
        elif isinstance(exc, KnownPathEnd):
            res["status"] = "known"
        else:
            res.update(status="inconclusive", label=str(exc))
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except Crash as e:
        res.update(status="violation", label="crash escaped the harness")
    except BaseException as e:
        if E.aborted is not None:
            # a PathControl was swallowed and something else came out
            exc = E.aborted
            if isinstance(exc, Violation):
                res.update(status="violation", label=exc.label, detail=str(exc.detail))
            else:
                res.update(status="infeasible" if isinstance(exc, Infeasible) else "inconclusive",
                           label=str(exc))
        elif isinstance(e, RecursionError) or isinstance(e, MemoryError):
            res.update(status="inconclusive", label=type(e).__name__)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "dataladmetadatamodel" in f.filename]
            try:
                msg = rt.deep_concrete(rt.to_str(e)) if False else str(e)
            except BaseException:
                msg = "?"
            res.update(status="violation", label=f"unexpected {type(e).__name__}",
                       detail=f"{msg[:300]} (in {where[-1].name if where else '?'})",
                       trace="".join(traceback.format_exception(e))[-3000:])
    res["detail"] = re.sub(r"0x[0-9a-f]{6,}", "0x", res["detail"])
    aborted, E.aborted = E.aborted, None
    res["incomplete"] = list(E.incomplete)
    res["reached"] = sorted(h.reached) if h else []
    res["trace_len"] = len(E.trace)
    res["pending"] = E.pending
    if res["status"] in ("violation", "inconclusive") or (want_values and res["status"] == "ok"):
        try:
            E.deadline = None
            if res["status"] == "violation":
                # the model must satisfy the negated assertion, too
                E.model = None
            m = E.ensure_model()
            res["values"] = input_values(m)
            if res["status"] == "ok":
                res["obs"] = [model_value(o, m) for o in h.obs]
        except PathControl:
            res["values"] = None
    return res
