"""Cold starts: the library itself is the first that needs a Python interpreter in the process."""
import json
import os
import re

import vcommon as v


def norm(x):
    if x.get("status") == "ok":
        return "ok", x.get("tokens")
    return tuple(re.sub(r"0x[0-9a-f]+", "0x", str(x.get(k))) for k in ("status", "kind", "stage", "error"))


def show(x):
    return f"{x[0]}: {str(x[1])[:200]}" if x[0] == "ok" else str(x)[:400]


def watch(rep, jobs, root):
    """Every job in a process of its own without an initialised interpreter, and in one with it: the results are the same.

    Jobs either have `steps` or `threads` (sub-jobs that start together)."""
    jobs = [{**j, "tokens": True, "model": False, **({"threads": [{**t, "tokens": True, "model": False} for t in j["threads"]]} if "threads" in j else {})} for j in jobs]
    env = {"PYTHONPATH": root}
    warm = {}
    for j in jobs:
        for sub in j.get("threads", [j]):
            k = json.dumps([sub["steps"], sub.get("cfg")])
            warm.setdefault(k, {"id": k, "steps": sub["steps"], "cfg": sub.get("cfg"), "tokens": True, "model": False})
    want = v.run_drv([[j] for j in warm.values()], env=env)
    # (Python itself cannot import `importlib` for the first time in several threads: one of them may load a second
    # `importlib._bootstrap_external`, with another `FileFinder` than the one for which `pkgutil` lists modules)
    site = os.path.join(v.workdir(), "site-importlib")
    os.makedirs(site, exist_ok=True)
    with open(os.path.join(site, "sitecustomize.py"), "w") as f:
        f.write("import importlib.machinery\nimport importlib.util\n")
    got = v.run_cold([j for j in jobs if "threads" not in j], env=env)
    got |= v.run_cold([j for j in jobs if "threads" in j], env={"PYTHONPATH": root + os.pathsep + site})
    for j in jobs:
        x = got[j["id"]]
        rep.case(j["id"])
        rep.count("cold starts")
        if "threads" in j and x["status"] == "ok":
            pairs = [(sub, y) for sub, ys in zip(j["threads"], x["threads"]) for y in ys]
            rep.count("cold starts by several threads at once")
        else:
            pairs = [(j["threads"][0] if "threads" in j else j, x)]
        for sub, y in pairs:
            a, b = norm(want[json.dumps([sub["steps"], sub.get("cfg")])]), norm(y)
            rep.count("results of cold starts compared")
            if a != b:
                rep.violation(f"{j['id']}: as the first thing that needs Python in a process, {str(sub['steps'])[:200]} ends with {show(b)} instead of {show(a)}", {"job": j})
    rep.sample("cold starts", {"jobs": [j["id"] for j in jobs[:8]], "of": len(jobs)}, 1)
