"""Compiles the real bindings of random packages into programs and runs them under observation (see rundriver.py)."""
import json
import os
import pickle
import re
import subprocess
import tempfile

import oracle
import rustgen
import vcommon as v
import world

LIB = os.path.dirname(os.path.abspath(__file__))
SCRIPT = """
import sys
sys.path.insert(0, _vargs[0])
import rundriver
rundriver.main(_vcall, _vargs[1])
"""


def run_exe(exe, script, args, cwd=None, timeout=240, env=None):
    fd, path = tempfile.mkstemp(suffix=".py", prefix="script-", dir=v.workdir())
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        f.write(script)
    p = subprocess.run([exe, path, *args], capture_output=True, text=True, errors="replace", timeout=timeout, cwd=cwd or v.workdir(),
                       env=v.child_env(env), stdin=subprocess.DEVNULL)
    return p


def run(rep, tag, n, sems, profiles=None, opts=None, rounds=4, per=4, extra=None, conf=None):
    """Exercises all entries whose meaning is in `sems` of `n` random packages; reports violations to `rep`."""
    return run_world(rep, world.World(tag, n, profiles, opts), sems, rounds, per, extra, conf, tag)


def run_world(rep, w, sems, rounds=4, per=4, extra=None, conf=None, tag="world", gen=None, prepare=None, rustc=None):
    d = v.workdir()
    res = w.generate(rep, pretty=lambda name: f"{d}/{name}.rs", **(gen or {}))
    if prepare:
        for name in res:
            prepare(name, f"{d}/{name}.rs")
    names = [x for x in w.pkgs if x in res]
    jobs = [(w, names[i:i + per], sems, rounds, res, f"{tag}-{i}", conf or {}, extra, rustc or {}) for i in range(0, len(names), per)]
    for out in v.pmap(_program, jobs):
        merge(rep, w, out)
    return w


def _program(job):
    w, names, sems, rounds, res, tag, conf, extra, rustc = job
    d = v.workdir()
    out = {"viol": [], "counts": {}, "samples": [], "cases": []}
    live = list(names)
    while live:
        prog = rustgen.Program()
        prog.rustc = rustc
        entries_of = {}
        for name in live:
            exp = oracle.Node("")
            exp.mods = oracle.Oracle(w.pkgs[name]).tree()
            sh = oracle.shape(res[name]["model"])

            def select(meta, exp=exp):
                f = find(exp, meta)
                return f is not None and f.sem[0] in sems and len(f.params) == meta["np"]
            missing(exp, sh, sems, name, out)
            prog.add_gen(f"{d}/{name}.rs", sh, select)
            if extra:
                extra(prog, len(prog.gens) - 1, exp, sh)
        ok, msg, exe = prog.build(tag)
        if ok:
            break
        # bindings that do not compile are reported, the others are still exercised
        bad = [x for x in live if re.search(rf"/{re.escape(x)}\.rs\b", msg)] or live
        for x in bad:
            lines = [ln for ln in msg.splitlines() if "error" in ln][:4]
            out["viol"].append({"name": x, "what": "the bindings do not compile: " + " | ".join(lines)[:900], "detail": {"rustc": msg[:3000]}})
        live = [x for x in live if x not in bad]
    if not live:
        return out
    pk = os.path.join(d, f"{tag}.pickle")
    with open(pk, "wb") as f:
        pickle.dump([(w.pkgs[x], None, None) for x in live], f)
    cf = os.path.join(d, f"{tag}.json")
    of = os.path.join(d, f"{tag}.out")
    with open(cf, "w") as f:
        json.dump({"lib": LIB, "root": w.root, "seed": f"{v.SEED}/{tag}", "entries": prog.entries, "pkgs": pk, "sems": sems, "rounds": rounds,
                   "out": of, **conf}, f)
    try:
        p = run_exe(exe, SCRIPT, [LIB, cf])
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    os.unlink(exe)
    if not os.path.exists(of):
        out["viol"].append({"name": ",".join(live), "what": f"the program with the bindings ended with {rc}: {err[-600:]}", "detail": {"stderr": err[-3000:]}})
        return out
    with open(of) as f:
        r = json.load(f)
    for x in r["viol"]:
        x["name"] = live[x["gen"]]
    out["viol"] += r["viol"]
    out["counts"] = r["counts"]
    out["samples"] = r["samples"]
    out["cases"] = [f"{live[int(c.split('/')[0])]}/{c.split('/', 1)[1]}" for c in r["cases"]]
    return out


def find(exp, meta):
    m = exp
    for x in meta["mod"]:
        m = m.mods.get(x)
        if m is None:
            return None
    if "struct" in meta:
        s = m.structs.get(meta["struct"])
        return s and (s.assoc if meta["kind"] == "assoc" else s.trait).get(meta["name"])
    return m.fns.get(meta["name"])


def missing(exp, act, sems, name, out):
    """An expected entry that does not exist cannot be called."""
    def rec(e, a, where):
        for n, f in e.fns.items():
            if f.sem[0] in sems and (a is None or n not in a.fns or len(a.fns[n]["params"]) - 1 != len(f.params)):
                out["viol"].append({"name": name, "what": f"{where}::{n} does not exist with {len(f.params)} parameters", "detail": {}})
        for sn, s in e.structs.items():
            t = a.structs.get(sn) if a is not None else None
            for d in ("assoc", "trait"):
                for n, f in getattr(s, d).items():
                    g = getattr(t, d).get(n) if t is not None else None
                    if f.sem[0] in sems and (g is None or len(g["params"]) - (d == "assoc") != len(f.params)):
                        out["viol"].append({"name": name, "what": f"{where}::{sn}::{n} does not exist with {len(f.params)} parameters", "detail": {}})
        for n, m in e.mods.items():
            rec(m, a.mods.get(n) if a is not None else None, f"{where}::{n}")
    rec(exp, act, "")


def merge(rep, w, out):
    for k, n in out["counts"].items():
        rep.count(k, n)
    for c in out["cases"]:
        rep.case(c)
    for s in out["samples"][:1]:
        rep.sample("observed", s, 4)
    seen = set()
    for x in out["viol"]:
        key = (x["name"], x["what"].split(":")[0])
        if key in seen:
            continue
        seen.add(key)
        first = x["name"].split(",")[0]
        rep.violation(f"{x['name']}: {x['what']}", {"observed": x["detail"], **w.detail(first)})
