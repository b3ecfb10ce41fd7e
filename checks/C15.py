import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vcommon as v
import world

STD = ["json", "string", "os", "html.parser", "os.path", "logging.handlers", "collections", "email.mime", "bisect", "xml.etree", "subprocess", "typing"]
OLD = "// previous content, größe\n"


def snap(path):
    if not os.path.lexists(path):
        return None
    st = os.lstat(path)
    if not os.path.isfile(path):
        return st.st_mode, sorted(os.listdir(path)) if os.path.isdir(path) else os.readlink(path)
    with open(path, "rb") as f:
        return f.read(), st.st_mode, st.st_ino, st.st_mtime_ns


def check(rep):
    rep.rule = (
        "build() of the real library is run for random packages, the standard library, embedded sources and failing generators, on targets of all kinds and with injected faults; the target"
        " and its directory are compared before and after with the result of generate(); a case is a distinct pair of generator and target"
    )
    v.build_drv()
    r = v.rng("c15")
    w = world.World("bu", 60 if v.THOROUGH else 20, opts={"mods": 4})
    base = os.path.join(v.workdir(), "out")
    names = list(w.pkgs)
    own = [m for n in names for m in w.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
    with open(os.path.join(w.root, "-dash.py"), "w") as f:
        f.write("def f(): ...\n")
    os.makedirs(os.path.join(w.root, "noisy"))
    with open(os.path.join(w.root, "noisy", "__init__.py"), "w") as f:
        f.write("print('NOISE')\ndef f(): ...\n")

    gens = []
    for i in range(300 if v.THOROUGH else 110):
        k = r.random()
        if k < 0.15:
            steps = [{"op": "str", "v": f"emb{i}", "src": f"def f(a: int) -> str:\n    return 'größe \\\\ \" {i}'\n" + "# x\n" * r.randint(0, 3000)}]
        elif k < 0.35:
            steps = [{"op": "name", "v": r.choice(STD)}]
        elif k < 0.6:
            steps = [{"op": "names", "v": r.sample(own, 2)}]
        else:
            steps = [{"op": "name", "v": r.choice(own + ["noisy"])}]
        if r.random() < 0.2:
            steps.append({"op": "clone"})
        cfg = None if r.random() < 0.6 else {x: r.random() < 0.6 for x in ("generate_functions", "generate_classes", "generate_docs", "traverse_submodules", "generate_properties", "include_private")}
        gens.append((steps, cfg))
    gens.append(([{"op": "str", "v": "tiny", "src": ""}], {"generate_docs": False}))
    failing = {
        "no modules": [], "unutterable name": [{"op": "name", "v": "-dash"}], "unknown parent": [{"op": "str", "v": "nopkg9.sub", "src": "x = 1\n"}],
        "unknown parent too": [{"op": "name", "v": "json"}, {"op": "str", "v": "nopkg8.a.b", "src": "def f(): ...\n"}],
    }
    os.makedirs(os.path.join(base, "together"))
    ok_kinds = ["new", "together", *v.STALE, "symlink", "relative", "unicode", "dangling link", "null", "read only", "hard link"]
    bad_kinds = ["directory", "no directory", "file as parent", "full", "loop", "too long", "empty", "nul", "limit", "limit existing"]
    jobs, info = [], {}

    def target(i, kind, want):
        d = os.path.join(base, f"{i}")
        os.makedirs(d)
        p = os.path.join(d, "x.rs")
        if kind == "together":
            p = os.path.join(base, "together", f"{i}.rs")
        if kind in v.STALE:
            v.stale(p, kind, want.encode())
        if kind in ("read only", "hard link", "limit existing", "existing"):
            with open(p, "w") as f:
                f.write(OLD)
            os.utime(p, (1, 1))
        if kind == "hard link":
            os.link(p, os.path.join(d, "y.rs"))
            return p, os.path.join(d, "y.rs")
        if kind == "symlink":
            q = os.path.join(d, "real.rs")
            with open(q, "w") as f:
                f.write(OLD * 100)
            os.symlink("real.rs", p)
            return p, q
        if kind == "dangling link":
            os.symlink("real.rs", p)
            return p, os.path.join(d, "real.rs")
        if kind == "relative":
            return os.path.relpath(p, v.workdir()), p
        if kind == "unicode":
            p = os.path.join(d, "größe \U0001f600")
        if kind == "null":
            return "/dev/null", None
        if kind == "read only":
            os.chmod(p, 0o444)      # (root may write it nevertheless)
        if kind == "directory":
            os.makedirs(p)
        if kind == "no directory":
            p = os.path.join(d, "missing", "x.rs")
        if kind == "file as parent":
            with open(p, "w") as f:
                f.write(OLD)
            p = os.path.join(p, "y.rs")
        if kind == "full":
            return "/dev/full", None
        if kind == "loop":
            os.symlink("x.rs", p)
        if kind == "too long":
            p = os.path.join(d, "x" * 300)
        if kind == "empty":
            p = ""
        if kind == "nul":
            p = os.path.join(d, "a\0b")
        return p, p

    ref_jobs = [{"id": f"ref{g}", "sys_path": [w.root], "steps": s, "cfg": c, "tokens": True, "model": False} for g, (s, c) in enumerate(gens)]
    refs = v.run_drv(ref_jobs)
    for g, (steps, cfg) in enumerate(gens):
        ref = refs[f"ref{g}"]
        if ref["status"] != "ok":
            raise v.Infra(f"no reference: {str(ref)[:500]}")
        kinds = ok_kinds + bad_kinds if v.THOROUGH else r.sample(ok_kinds, 10) + r.sample(bad_kinds, 3)
        for kind in kinds:
            jid = f"b{len(jobs)}"
            p, real = target(jid, kind, ref["tokens"])
            pre = post = None
            if kind.startswith("limit"):
                n = r.choice([0, 1, len(ref["tokens"].encode()) // 2, len(ref["tokens"].encode()) - 1])
                pre = f"import os, resource, signal\nkeep = os.dup(2)\nos.dup2(os.open('/dev/null', os.O_WRONLY), 2)\nsignal.signal(signal.SIGXFSZ, signal.SIG_IGN)\nresource.setrlimit(resource.RLIMIT_FSIZE, ({n}, resource.RLIM_INFINITY))"
                post = "resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) or os.dup2(keep, 2) and 'x'"
                if n == len(ref["tokens"].encode()):
                    continue
            jobs.append({"id": jid, "sys_path": [w.root], "steps": steps, "cfg": cfg, "build": p, "model": False, "pre": pre, "post": post})
            info[jid] = (steps, cfg, kind, p, real, ref["tokens"], None)
    for what, steps in failing.items():
        for kind in ("existing", "new", "no directory"):
            jid = f"b{len(jobs)}"
            p, real = target(jid, kind, "")
            jobs.append({"id": jid, "sys_path": [w.root], "steps": steps, "build": p, "model": False})
            info[jid] = (steps, None, kind, p, real, None, what)
    dirs = {jid: listing(os.path.join(base, jid)) for jid in info}
    before = {jid: snap(x[4]) if x[4] and "\0" not in x[4] else None for jid, x in info.items()}
    res = v.run_drv(jobs)
    for jid, (steps, cfg, kind, p, real, want, failure) in info.items():
        x = res[jid]
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:1000])
        label = f"{[s.get('v', s['op']) for s in steps]} to {kind}"
        detail = {"steps": steps, "configuration": cfg, "target": p, "kind": kind, "result": x}
        rep.case((repr(steps), repr(cfg), kind))
        rep.count(("failing generation: " if failure else "target: ") + kind)
        now = listing(os.path.join(base, jid))
        if x["status"] in ("panic", "hang", "crash"):
            rep.violation(f"{label}: {x['status']}: {x.get('error')}", detail)
            continue
        if failure:
            if x["status"] != "err":
                rep.violation(f"{label}: success is reported although the generation fails ({failure})", detail)
            if snap(real) != before[jid] or now != dirs[jid]:
                rep.violation(f"{label}: the target was {'modified' if before[jid] else 'created'} although the generation fails ({failure})", detail)
            continue
        if kind in bad_kinds:
            if x["status"] != "err":
                rep.violation(f"{label}: success is reported although the file cannot be written", detail)
            elif x.get("stage") == "finish" and x.get("kind") != "IoError":
                rep.violation(f"{label}: {x['kind']} is reported instead of an error of the file system: {x['error']}", detail)
            if not kind.startswith("limit") and kind not in ("empty", "nul", "full") and (snap(real) != before[jid] or now != dirs[jid]):
                rep.violation(f"{label}: something was written: {now}", detail)
            if kind == "file as parent" and open(os.path.dirname(real)).read() != OLD:
                rep.violation(f"{label}: the existing file was damaged", detail)
            continue
        if x["status"] != "ok":
            rep.violation(f"{label}: {x.get('error')}", detail)
            continue
        if kind == "null":
            continue
        try:
            with open(real, "rb") as f:
                got = f.read()
        except OSError as e:
            rep.violation(f"{label}: success is reported, but the file cannot be read: {e}; the directory contains {now}", detail)
            continue
        rep.count("bytes compared", len(got))
        if got != want.encode():
            k = next((k for k, (a, b) in enumerate(zip(got, want.encode())) if a != b), min(len(got), len(want)))
            rep.violation(f"{label}: the file has {len(got)} bytes instead of the {len(want.encode())} of generate(), from {k}: {got[k:k + 60]!r}", detail)
        if kind == "together" and os.path.basename(real) in os.listdir(os.path.dirname(real)):
            os.unlink(real)
        extra = set(now) - set(dirs[jid]) - {os.path.basename(real)}
        if extra:
            rep.violation(f"{label}: unexpected files: {sorted(extra)}", detail)
        rep.sample(kind, {"generator": str(steps)[:200], "configuration": cfg, "target": kind, "bytes": len(got)}, 1)
    cold_starts(rep, v.rng("c15-cold"), gens, refs, w.root)
    if os.listdir(os.path.join(base, "together")):
        rep.violation(f"unexpected files: {sorted(os.listdir(os.path.join(base, 'together')))}", {})


def cold_starts(rep, r, gens, refs, root):
    """Build scripts: the process needs Python for build() only."""
    out = os.path.join(v.workdir(), "cold-out")
    os.makedirs(out)
    picks = [g for g in range(len(gens)) if gens[g][0][0]["op"] == "str"][:6] + r.sample(range(len(gens)), 10)
    jobs = [{"id": f"cold{i}", "steps": gens[g][0], "cfg": gens[g][1], "build": os.path.join(out, f"{i}.rs"), "model": False} for i, g in enumerate(picks)]
    jobs.append({"id": "cold nothing", "steps": [], "build": os.path.join(out, "nothing.rs"), "model": False})
    res = v.run_cold(jobs, env={"PYTHONPATH": root})
    for j, g in zip(jobs, picks):
        x, want = res[j["id"]], refs[f"ref{g}"]["tokens"]
        rep.case((j["id"], repr(j["steps"])))
        rep.count("build() as the first that needs Python in a process")
        got = open(j["build"], encoding="utf-8").read() if os.path.exists(j["build"]) else None
        if x["status"] != "ok" or got != want:
            rep.violation(f"{str(j['steps'])[:200]}: build() in a new process: {x['status']}: {x.get('error')}; the file has {None if got is None else len(got)} characters instead of {len(want)}", {"job": j})
    if res["cold nothing"]["status"] != "err" or os.path.exists(jobs[-1]["build"]):
        rep.violation(f"a generator without modules in a new process: {str(res['cold nothing'])[:300]}", jobs[-1])


def listing(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


v.main("C15", check)
