"""Exploration of all paths of a harness by several worker processes."""
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REAL_PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class PathTimeout(BaseException):
    pass


def _worker(conn):
    sys.setrecursionlimit(20000)
    sys.unraisablehook = lambda *a: None
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from .session import run_path
    from .engine import E, Stats, Inconclusive

    def alarm(*a):
        # the path is abandoned wherever it is
        exc = Inconclusive("path time limit")
        E.aborted = exc
        raise exc
    signal.signal(signal.SIGALRM, alarm)
    while True:
        task = conn.recv()
        if task is None:
            return
        harness, func, bounds, prefixes, slice_s, path_s, sample_p, seed = task
        rnd = random.Random(seed)
        E.stats = Stats()
        E.functions = set()
        out = {"paths": {}, "results": [], "samples": [], "incomplete": {}, "reached": {},
               "decisions": 0}
        stack = list(prefixes)
        end = time.monotonic() + slice_s
        while stack and time.monotonic() < end:
            prefix = stack.pop()
            want = rnd.random() < (0.8 if sum(out["paths"].values()) < 3 else sample_p)
            signal.setitimer(signal.ITIMER_REAL, path_s)
            try:
                r = run_path(harness, func, prefix, bounds, want_values=want)
            except BaseException as e:       # e.g. the alarm outside of run_path's try
                r = {"status": "inconclusive", "label": f"abandoned: {type(e).__name__} {e}",
                     "detail": "", "pending": E.pending, "incomplete": [], "reached": [],
                     "trace_len": len(E.trace), "values": None}
                E.aborted = None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            stack.extend(r.pop("pending"))
            out["paths"][r["status"]] = out["paths"].get(r["status"], 0) + 1
            out["decisions"] += r["trace_len"]
            for w in set(r["incomplete"]):
                out["incomplete"][w] = out["incomplete"].get(w, 0) + 1
            for w in r["reached"]:
                out["reached"][w] = out["reached"].get(w, 0) + 1
            if r["status"] in ("violation", "inconclusive"):
                r["prefix"] = None
                out["results"].append(r)
            elif want and r.get("values") is not None and r["status"] == "ok":
                out["samples"].append({"values": r["values"], "obs": r.get("obs")})
        out["rest"] = stack
        out["stats"] = E.stats.as_dict()
        out["functions"] = sorted(E.functions)
        conn.send(out)


class Pool:
    def __init__(self, n):
        self.w = [self.new() for _ in range(n)]

    @staticmethod
    def new():
        ctx = mp.get_context("fork")
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return [p, a, False]

    def restart(self, w):
        """Replaces a worker that does not answer."""
        w[0].kill()
        w[0].join(5)
        w[1].close()
        w[:] = self.new()

    def close(self):
        for p, c, busy in self.w:
            try:
                c.send(None)
            except (BrokenPipeError, OSError):
                pass
        for p, c, busy in self.w:
            p.join(2)
            if p.is_alive():
                p.kill()


def merge(total, out):
    for k in ("paths", "incomplete", "reached"):
        for a, b in out[k].items():
            total[k][a] = total[k].get(a, 0) + b
    for a, b in out["stats"].items():
        total["stats"][a] = total["stats"].get(a, 0) + b
    total["functions"].update(out["functions"])
    total["decisions"] += out["decisions"]


def lost(total, why):
    total["paths"]["inconclusive"] = total["paths"].get("inconclusive", 0) + 1
    total["results"].append({"status": "inconclusive", "label": why, "detail": "", "incomplete": [],
                             "reached": [], "values": None, "prefix": None})


def explore(pool, harness, func, bounds, budget_s, path_s=60, sample_p=0.05, seed=0, max_results=200,
            stop_on_violation=30, known=()):
    """All paths of one harness function.  Returns the merged record."""
    total = {"paths": {}, "incomplete": {}, "reached": {}, "stats": {}, "functions": set(),
             "decisions": 0, "results": [], "samples": [], "exhausted": False, "left": 0}
    todo = [[]]
    t0 = time.monotonic()
    busy = 0
    nviol = 0
    rr = 0
    from multiprocessing.connection import wait
    while todo or busy:
        over = time.monotonic() - t0 > budget_s or nviol >= stop_on_violation
        if over and not busy:
            break
        if not over:
            for w in pool.w:
                if not w[2] and todo:
                    # the shallowest prefixes are the largest pieces of work
                    k = max(1, min(8, len(todo) // (2 * len(pool.w))))
                    chunk = todo[:k]
                    del todo[:k]
                    slice_s = 0.15 if len(todo) < len(pool.w) else 0.7
                    rr += 1
                    w[1].send((harness, func, bounds, chunk, slice_s, path_s, sample_p,
                               seed * 100003 + rr))
                    w[2] = True
                    busy += 1
        ready = wait([w[1] for w in pool.w if w[2]], timeout=path_s + 30)
        if not ready:
            # what they were at is given up and reported as undecided
            for w in pool.w:
                if w[2]:
                    pool.restart(w)
                    busy -= 1
                    lost(total, "a worker process does not answer")
            continue
        for w in pool.w:
            if w[2] and w[1] in ready:
                try:
                    out = w[1].recv()
                except (EOFError, OSError):
                    pool.restart(w)
                    busy -= 1
                    lost(total, "a worker process died (out of memory?)")
                    continue
                w[2] = False
                busy -= 1
                merge(total, out)
                for r in out["results"]:
                    if r["status"] == "violation" and not any(
                            r["label"] == e["label"] and e.get("detail", "") in r["detail"]
                            for e in known):
                        nviol += 1
                    if len(total["results"]) < max_results or r["status"] == "violation":
                        total["results"].append(r)
                total["samples"].extend(out["samples"])
                todo.extend(out["rest"])
                todo.sort(key=len)
    total["left"] = len(todo)
    total["exhausted"] = not todo
    total["wall_s"] = time.monotonic() - t0
    return total


# ------------------------------------------------------------------- replay
class Replayer:
    """Runs concrete values on the real code, several at a time."""

    def __init__(self, n, tmp):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", SX_TMP=tmp)
        self.p = [subprocess.Popen([REAL_PYTHON, os.path.join(HERE, "real.py")],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                   text=True) for _ in range(n)]

    def run(self, tasks, deadline=None):
        """results in the order of the tasks (None if not run)"""
        from threading import Thread
        res = [None] * len(tasks)
        q = queue.Queue()
        for i in range(len(tasks)):
            q.put(i)

        def loop(p):
            while True:
                if deadline is not None and time.monotonic() > deadline:
                    return
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                p.stdin.write(json.dumps(tasks[i]) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                if not line:
                    return
                res[i] = json.loads(line)
        ts = [Thread(target=loop, args=(p,)) for p in self.p]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def close(self):
        for p in self.p:
            try:
                p.stdin.close()
            except OSError:
                pass
            p.wait(5)
