#!/opt/veriftools/pyvenv/bin/python
"""selftest.py [function ...]: the models of the language against the language.
Runs one model of every path of harness/selftest.py natively and compares."""
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from sx import driver                 # noqa: E402

tmp = tempfile.mkdtemp(prefix="sxself")
pool = driver.Pool(8)
rep = driver.Replayer(8, tmp)
bad = 0
try:
    for func in sys.argv[1:] or ["git", "text", "two", "octets"]:
        bounds = {"len": int(os.environ.get("LEN", "2"))}
        r = driver.explore(pool, "selftest", func, bounds, 1200, sample_p=1.0, stop_on_violation=10 ** 9)
        for x in r["results"]:
            print(func, x["status"], x["label"], x["detail"], x.get("values"))
        bad += sum(x["status"] == "violation" for x in r["results"])
        s = r["samples"]
        res = rep.run([{"harness": "selftest", "func": func, "bounds": bounds, "values": x["values"]} for x in s])
        seen = {}
        for x, got in zip(s, res):
            if got is None or got["status"] != "ok" or got["obs"] != x["obs"]:
                bad += 1
                k = str([v for n, v in x["values"].items() if n in ("operation", "kind", "command", "specification")])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 2:
                    print("DIFFERS", func, x["values"], "model", x["obs"], "real", got and (got["status"], got["label"], got["obs"]))
        print(f"{func}: {sum(r['paths'].values())} paths {r['paths']}, {len(s)} compared, exhausted={r['exhausted']}, "
              f"incomplete={r['incomplete']}, {r['wall_s']:.1f}s", flush=True)
finally:
    pool.close()
    rep.close()
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
