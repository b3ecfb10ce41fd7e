import os
import resource
import signal
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vcommon as v
import world

STD = ["json", "string", "colorsys", "html.parser", "os.path", "logging.handlers", "collections", "email.mime", "bisect", "xml.etree", "concurrent.futures", "keyword"]
EXTRA = {
    "noisy.py": "import sys\nprint('NOISE on stdout')\nprint('NOISE on stderr', file=sys.stderr)\nsys.stdout.write('NOISE')\ndef f(a: int) -> int: ...\n",
    "noisy_pkg/__init__.py": "print('NOISE')\ndef g(): ...\n", "noisy_pkg/sub.py": "import sys\nprint('NOISE', file=sys.stderr)\ndef h(): ...\n", "noisy_pkg/bad.py": "print('NOISE')\nraise ValueError('x')\n",
    "fails.py": "raise ValueError('reason-4711')\n", "exits.py": "import sys\nsys.exit(0)\n", "interrupted.py": "raise KeyboardInterrupt\n", "broken.py": "def f(:\n", "cannot.py": "import no_such_thing_4712\n",
    "quits/__init__.py": "raise SystemExit('bye')\n", "quits/sub.py": "def f(): ...\n", "ok/__init__.py": "def f(): ...\n", "ok/bad.py": "raise RuntimeError('reason-4713')\n",
    "over/__init__.py": "from ._priv import PUBLIC\nX: int = 1\ndef top(): ...\n", "over/_priv/__init__.py": "PUBLIC: int = 1\n_hidden = 2\nclass C: ...\n", "over/_priv/deep.py": "D: str = ''\ndef f(): ...\n",
    "over/tests.py": "T: int = 1\ndef f(): ...\n", "over/sub/__init__.py": "S: int = 1\ndef f(): ...\n", "over/sub/leaf.py": "L: int = 1\ndef f(): ...\n", "overt.py": "O: int = 1\ndef f(): ...\n",
    "größe.py": "def f(ä: int = 1) -> str: ...\n", "-dash.py": "def f(): ...\n",
    "doc.py": '"""Line one.\n\n    indented `code`\n{braces} "quotes" \\\\ end\n"""\ndef f(x: str = "a\\nb") -> None:\n    """doc\n\n    two"""\nX = 1\n',
}
BAD = {"no_such_module_zz": "no_such_module_zz", "fails": "reason-4711", "exits": "exits", "interrupted": "interrupted", "broken": "broken", "cannot": "no_such_thing_4712", "quits.sub": "bye",
       "ok.bad": "reason-4713", "ok.nothing": "ok.nothing", "json.nothing": "nothing", "": "", "a b": "a b", "os..path": "os..path", ".json": ".json", "json.": "json."}


def forms(r, mods, out):
    """Equivalent command lines."""
    k = r.randrange(5)
    o = [] if out is None else r.choice([["-o", out], ["--output", out], [f"--output={out}"], [f"-o{out}"]])
    if any(m.startswith("-") for m in mods):
        args = [f"--module-name={m}" for m in mods]
    elif k == 0:
        args = ["-m", *mods]
    elif k == 1:
        args = [x for m in mods for x in ("-m", m)]
    elif k == 2:
        args = [f"--module-name={m}" for m in mods]
    elif k == 3:
        args = ["--module-name", *mods]
    else:
        args = ["-m", mods[0]] + [x for m in mods[1:] for x in ("--module-name", m)]
    if k in (0, 3) and o:
        return r.choice([o + args, args + o])
    return args + o if r.random() < 0.5 else o + args


def run(args, cwd, root, stdout=None, fsize=None, timeout=120, env=None):
    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))

    p = subprocess.Popen([v.CLI, *args], cwd=cwd, env=v.child_env({"PYTHONPATH": root, "LC_ALL": "C.UTF-8", **(env or {})}), stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(timeout=v.limit(timeout))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        v._hangs.append("tool")
        return "hang", b"", b""
    return p.returncode, out or b"", err


FAULTS = ["directory", "file as parent", "full", "loop", "too long", "limit", "limit existing", "full stdout", "limit stdout", "broken pipe", "empty name", "nul"]


def snap(path):
    if not os.path.lexists(path):
        return None
    st = os.stat(path)
    with open(path, "rb") as f:
        return f.read(), st.st_mode, st.st_ino, st.st_mtime_ns


def check(rep):
    rep.rule = (
        "the real tool is run with command lines for random packages, the standard library and awkward modules, with all kinds of outputs, invalid arguments, failing modules and"
        " injected output faults; its output is compared byte by byte with the formatted result of the library, its exit status and effects with what the case requires;"
        " a case is a distinct command line with its environment"
    )
    v.build_drv()
    v.build_cli()
    r = v.rng("c14")
    w = world.World("cl", 80 if v.THOROUGH else 32, opts={"mods": 4})
    for f, s in EXTRA.items():
        p = os.path.join(w.root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as fh:
            fh.write(s)
    base = os.path.join(v.workdir(), "out")
    os.makedirs(os.path.join(base, "together"))
    own = [m for n in w.pkgs for m in w.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
    good = ["noisy", "noisy_pkg", "noisy_pkg.sub", "größe", "doc", "ok"]

    requests = [[m] for m in STD + good]
    # requests of which one covers another one, or seems to
    over = ["over", "over._priv", "over._priv.deep", "over.tests", "over.sub", "over.sub.leaf", "overt"]
    requests += [["over", m] for m in over[1:]] + [[m, "over"] for m in over[1:]] + [["over.sub", "over.sub.leaf"], ["over._priv", "over._priv.deep"]]
    for _ in range(60 if v.THOROUGH else 10):
        requests.append(r.sample(over, r.randint(2, 5)))
    for n in r.sample(sorted(w.pkgs), len(w.pkgs) if v.THOROUGH else 12):
        mods = w.pkgs[n]["order"]
        requests.append(r.sample(mods, min(len(mods), r.choice([2, 3, 4]))))
    for _ in range(400 if v.THOROUGH else 120):
        pool = r.choice([own, own, own + good, good + STD])
        req = r.sample(pool, r.choice([1, 1, 2, 3]))
        if r.random() < 0.15:
            req.append(req[0])
        requests.append(req)
    faulty = [r.choice(own) for _ in FAULTS]
    refs = v.run_drv([{"id": repr(q), "sys_path": [w.root], "steps": [{"op": "name", "v": m} for m in q], "pretty_inline": True, "model": False} for q in {repr(q): q for q in [*requests, ["json"], ["doc"], *([m] for m in faulty)]}.values()])

    jobs = []
    for i, q in enumerate(requests):
        ref = refs[repr(q)]
        if ref["status"] != "ok" or "pretty" not in ref:
            raise v.Infra(f"no reference for {q}: {str(ref)[:500]}")
        kinds = ["stdout", r.choice(["new", *v.STALE]), r.choice(["dirs", "relative", "symlink", "unicode", "bare", "dots"])]
        if not v.THOROUGH:
            kinds = [kinds[1], r.choice(kinds[::2])]
        for kind in kinds:
            jobs.append(("good", i, q, kind, ref["pretty"].encode()))
    for i, q in r.sample(list(enumerate(requests)), 30):
        # processes that write into the same directory at the same time
        jobs.append(("good", i, q, "together", refs[repr(q)]["pretty"].encode()))
    for i, b in enumerate(BAD):
        for kind in ("stdout", "existing", "missing"):
            q = [b]
            k = r.randrange(3)
            if k == 1:
                q = [r.choice(own), b]
            elif k == 2:
                q = [b, r.choice(own)]
            jobs.append(("bad", i, q, kind, b))
    for i, args in enumerate([[], ["-m"], ["json"], ["-o", "{out}"], ["-m", "json", "-o"], ["-m", "json", "--unknown"], ["-m", "json", "-o", "{out}", "-o", "{out}2"], ["--module_name", "json"],
                              ["-x", "json"], ["--module-name"], ["-m", "json", "-o", "{out}", "--", "string"]]):
        for kind in ("existing", "missing"):
            jobs.append(("usage", i, args, kind, None))
    for i, kind in enumerate(FAULTS):
        for q in (["json"], ["doc"], [faulty[i]]):
            jobs.append(("fault", i, q, kind, len(refs[repr(q)]["pretty"].encode())))

    def one(ij):
        i, (what, k, q, kind, ref) = ij
        rr = v.rng("c14", "job", i)
        d = os.path.join(base, f"{i}")
        os.makedirs(d)
        return ij[1], (good_case if what == "good" else bad_case if what == "bad" else usage_case if what == "usage" else fault_case)(rr, d, w.root, q, kind, ref)

    results = v.pmap(one, list(enumerate(jobs)))
    left = sorted(set(os.listdir(os.path.join(base, "together"))) - {f"{i}.rs" for i, j in enumerate(jobs) if j[3] == "together"})
    if left:
        rep.violation(f"unexpected files in a directory where several processes write: {left}", {})
    for (what, k, q, kind, ref), (args, problems) in results:
        rep.case((what, tuple(args), kind))
        rep.count(f"{what}: {kind}")
        rep.sample(what, {"arguments": args, "output": kind}, 4)
        if what == "good":
            rep.count("bytes compared", len(ref))
        for p in problems[:2]:
            rep.violation(f"{' '.join(map(repr, args))} ({what}, {kind}): {p}", {"arguments": args, "kind": kind, "modules": q, **(w.detail(q[0].split('.')[0]) if q and q[0].split(".")[0] in w.pkgs else {})})


def good_case(r, d, root, q, kind, ref):
    out, cwd, bad = None, d, []
    target = None
    if kind != "stdout":
        target = out = os.path.join(d, "bindings.rs")
    if kind in v.STALE:
        v.stale(out, kind, ref)
        os.chmod(out, 0o640)
    elif kind == "together":
        target = out = os.path.join(os.path.dirname(d), "together", os.path.basename(d) + ".rs")
    elif kind == "dirs":
        target = out = os.path.join(d, "a", "b c", "d", "x.rs")
    elif kind == "relative":
        out, target = r.choice(["sub/x.rs", "./sub/x.rs", "sub//x.rs"]), os.path.join(d, "sub", "x.rs")
    elif kind == "dots":
        os.makedirs(os.path.join(d, "sub"))
        out, target = "sub/../y.rs", os.path.join(d, "y.rs")
    elif kind == "bare":
        out, target = "bare", os.path.join(d, "bare")
    elif kind == "unicode":
        out, target = "größe \U0001f600.rs", os.path.join(d, "größe \U0001f600.rs")
    elif kind == "symlink":
        target = os.path.join(d, "real.rs")
        with open(target, "w") as f:
            f.write("old" * 1000)
        os.symlink(target, out)
    args = forms(r, q, out)
    rc, so, se = run(args, cwd, root)
    if rc != 0:
        bad.append(f"exit status {rc}: {se.decode(errors='replace')[-300:]}")
        return args, bad
    if target is None:
        got = so
    else:
        if so:
            bad.append(f"standard output is not empty: {so[:200]!r}")
        if not os.path.exists(target):
            return args, bad + ["the output file does not exist"]
        with open(target, "rb") as f:
            got = f.read()
        if kind == "symlink" and not os.path.islink(out):
            bad.append("the symbolic link was replaced")
        left = sorted(os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs)
        want = [os.path.relpath(target, d)] + ([os.path.relpath(out, d)] if kind == "symlink" else [])
        if left != sorted(want) and kind != "together":
            bad.append(f"unexpected files: {left}")
    if b"NOISE" in se:
        bad.append("the output of the Python modules is not suppressed")
    if got != ref:
        k = next((k for k, (x, y) in enumerate(zip(got, ref)) if x != y), min(len(got), len(ref)))
        bad.append(f"{len(got)} bytes differ from the {len(ref)} bytes of the library at {k}: {got[max(0, k - 40):k + 60]!r} instead of {ref[max(0, k - 40):k + 60]!r}")
    return args, bad


def must_fail(bad, rc, so, se, reason=None):
    if rc == 0:
        bad.append("exit status 0 although it failed")
    elif rc == "hang":
        bad.append("does not terminate")
    elif isinstance(rc, int) and rc < 0:
        bad.append(f"killed by signal {-rc}")
    if so:
        bad.append(f"standard output is not empty: {so[:200]!r}")
    if not se.strip():
        bad.append("no reason on standard error")
    elif reason and reason.encode() not in se:
        bad.append(f"the reason is not on standard error: {se[-300:]!r}")


def existing(d, kind):
    out = os.path.join(d, "x.rs")
    if kind == "existing":
        with open(out, "w") as f:
            f.write("// previous bindings\n" * 50)
        os.utime(out, (1, 1))
        return out, out
    if kind == "missing":
        return os.path.join(d, "new", "x.rs"), os.path.join(d, "new", "x.rs")
    return None, out


def bad_case(r, d, root, q, kind, b):
    out, path = existing(d, kind)
    before = snap(path)
    args = forms(r, q, out)
    if not b or b == "":
        args = [f"--module-name={m}" for m in q] + ([] if out is None else ["-o", out])
    rc, so, se = run(args, d, root)
    bad = []
    must_fail(bad, rc, so, se, BAD[b])
    if snap(path) != before:
        bad.append("the output file was touched" if before else "an output file was created")
    return args, bad


def usage_case(r, d, root, q, kind, _):
    out, path = existing(d, kind)
    before = snap(path)
    args = [x.replace("{out}", out) for x in q]
    rc, so, se = run(args, d, root)
    bad = []
    must_fail(bad, rc, so, se)
    if snap(path) != before or os.path.exists(path + "2"):
        bad.append("the output file was touched" if before else "an output file was created")
    return args, bad


def fault_case(r, d, root, q, kind, size):
    out = os.path.join(d, "x.rs")
    bad, kw = [], {}
    path = out
    if kind == "directory":
        os.makedirs(out)
        with open(os.path.join(out, "keep"), "w") as f:
            f.write("x")
        path = os.path.join(out, "keep")
    elif kind == "file as parent":
        with open(out, "w") as f:
            f.write("keep")
        out = os.path.join(out, "y.rs")
    elif kind == "full":
        out = "/dev/full"
    elif kind == "loop":
        os.symlink("x.rs", out)
        path = os.path.join(d, "other")
    elif kind == "too long":
        out = os.path.join(d, "x" * 300)
    elif kind == "empty name":
        out = d + "/"
    elif kind == "nul":
        out = os.path.join(d, "missing", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "dev", "full")
    elif kind.startswith("limit"):
        kw["fsize"] = min(r.choice([1, 10, 100, 4096, size]), size - 1)
        if kind == "limit existing":
            with open(out, "w") as f:
                f.write("old" * 100)
    before = snap(path) if kind in ("directory", "file as parent") else None
    if kind == "full stdout":
        with open("/dev/full", "wb") as f:
            args = forms(r, q, None)
            rc, so, se = run(args, d, root, stdout=f)
    elif kind == "limit stdout":
        with open(os.path.join(d, "so"), "wb") as f:
            args = forms(r, q, None)
            rc, so, se = run(args, d, root, stdout=f, **kw)
    elif kind == "broken pipe":
        rd, wr = os.pipe()
        os.close(rd)
        args = forms(r, q, None)
        with os.fdopen(wr, "wb") as f:
            rc, so, se = run(args, d, root, stdout=f)
    else:
        args = forms(r, q, out)
        if kind == "empty name":
            args = ["-m", *q, "-o", out]
        rc, so, se = run(args, d, root, **kw)
    must_fail(bad, rc, so, se)
    if before is not None and snap(path) != before:
        bad.append("an existing file was damaged")
    return args, bad


v.main("C14", check)
