"""Shared infrastructure of all checks: building, running the driver, compiling, reporting."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, "lib")
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "drv")
MAC_TARGET = os.path.join(BUILD, "mac")
CLI_TARGET = os.path.join(BUILD, "cli")
DRV = os.path.join(TARGET, "debug", "drv")
CLI = os.path.join(CLI_TARGET, "debug", "pyo3_bindgen")
PYTHON = "/usr/bin/python3.12"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(ROOT, "known_findings.txt")

CARGO_ENV = {
    "PYO3_PYTHON": PYTHON,
    "CARGO_NET_OFFLINE": "true",
    "RUSTUP_TOOLCHAIN": "stable",
    "CARGO_TERM_COLOR": "never",
    "CARGO_INCREMENTAL": "0",
}


def child_env(extra=None, drop=()):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "CARGO_", "RUSTFLAGS", "RUSTC"))}
    env.update(CARGO_ENV)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    if extra:
        env.update(extra)
    for k in drop:
        env.pop(k, None)
    return env


class Infra(Exception):
    """The check cannot give an answer (not a violation)."""


# ---------------------------------------------------------------- building
def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _build(kind, manifest, target, packages, args):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, f"{kind}.hash")
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        env = child_env({"CARGO_TARGET_DIR": target})
        if have != want:
            # Modification times cannot be relied upon: discard everything built from /repo
            if os.path.exists(target):
                cmd = ["cargo", "clean", "--offline", "--manifest-path", manifest]
                for p in packages:
                    cmd += ["-p", p]
                _run(cmd, env=env)
            if os.path.exists(stamp):
                os.remove(stamp)
        out = _run(["cargo", "build", "--offline", "--manifest-path", manifest] + args, env=env)
        if out.returncode != 0:
            raise Infra(f"cannot build {kind}:\n{out.stdout[-4000:]}")
        with open(stamp, "w") as f:
            f.write(want)


def build_drv():
    _build(
        "drv",
        os.path.join(ROOT, "harness", "drv", "Cargo.toml"),
        TARGET,
        ["pyo3_bindgen_engine", "pyo3_bindgen_macros", "pyo3_bindgen"],
        ["--locked"],
    )


def build_mac():
    """The library with the procedural macro."""
    _build("mac", os.path.join(ROOT, "harness", "mac", "Cargo.toml"), MAC_TARGET, ["pyo3_bindgen_engine", "pyo3_bindgen_macros", "pyo3_bindgen"], ["--locked"])


def build_cli():
    _build(
        "cli",
        os.path.join(REPO, "pyo3_bindgen_cli", "Cargo.toml"),
        CLI_TARGET,
        ["pyo3_bindgen_engine", "pyo3_bindgen_macros", "pyo3_bindgen", "pyo3_bindgen_cli"],
        ["--locked", "-p", "pyo3_bindgen_cli"],
    )


def rlib(name, target=TARGET):
    d = os.path.join(target, "debug", "deps")
    cands = [f for f in os.listdir(d) if re.fullmatch(rf"lib{name}-[0-9a-f]+\.(rlib|so)", f)]
    if not cands:
        raise Infra(f"no build product for {name}")
    cands.sort(key=lambda f: os.path.getmtime(os.path.join(d, f)))
    return os.path.join(d, cands[-1])


# ---------------------------------------------------------------- scratch space
_work = None


def workdir():
    global _work
    if _work is None:
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w", dir=base)
    return _work


def cleanup():
    global _work
    if _work and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None


# ---------------------------------------------------------------- driver
def _drv_shard(args):
    idx, jobs, timeout, env, cwd, tag = args
    wd = workdir()
    jf = os.path.join(wd, f"jobs-{tag}-{idx}.jsonl")
    rf = os.path.join(wd, f"res-{tag}-{idx}.jsonl")
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")
    results = {}
    done = 0
    err = os.path.join(wd, f"stderr-{tag}-{idx}.txt")
    while done < len(jobs):
        if len(_hangs) >= 24:
            # enough has been seen: the check must end in time
            for j in jobs[done:]:
                results[j["id"]] = {"id": j["id"], "status": "hang", "error": "not run because too many others did not end"}
            return results
        if os.path.exists(rf):
            os.remove(rf)
        status = None
        with open(err, "wb") as ef:
            p = subprocess.Popen(
                [DRV, jf, rf, str(done)], stdout=ef, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                env=env, cwd=cwd, start_new_session=True,
            )
            # (a run that needs more memory than any correct one ends by itself, before it takes all of the machine's)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
            except ProcessLookupError:
                pass
            last, last_t = -1, time.monotonic()
            while True:
                try:
                    status = p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(rf) if os.path.exists(rf) else 0
                    if size != last:
                        last, last_t = size, time.monotonic()
                    elif time.monotonic() - last_t > limit(timeout):
                        _hangs.append(idx)
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        status = "timeout"
                        break
        begun = None
        n = 0
        if os.path.exists(rf):
            for line in open(rf, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "begin" in r:
                    begun = r["begin"]
                else:
                    results[r["id"]] = r
                    n += 1
                    begun = None
        if begun is not None:
            if status != "timeout" and time.monotonic() - last_t > 5:
                # (a long run that crashed, usually for want of memory)
                _hangs.append(idx)
            tail = open(err, errors="replace").read()[-1500:]
            results[begun] = {
                "id": begun,
                "status": "hang" if status == "timeout" else "crash",
                "error": f"exit status {status}; output: {tail}",
            }
            n += 1
        done += n
        if n == 0:
            raise Infra(f"driver made no progress (status {status}): {open(err, errors='replace').read()[-1500:]}")
        if begun is None and done < len(jobs) and status == 0:
            raise Infra("driver stopped early")
    return results


MEMORY = 5 << 30
_tagno = 0
_hangs = []


def limit(timeout):
    """Time limit of one run: shorter after many runs did not end, because the check itself must end in time."""
    return timeout if len(_hangs) < 8 else min(timeout, 15)


def run_drv(jobs, timeout=60, shards=None, env=None, cwd=None):
    """Runs the jobs (lists inside `jobs` stay together in one process, in order); returns id -> result."""
    global _tagno
    _tagno += 1
    groups = [j if isinstance(j, list) else [j] for j in jobs]
    n = max(1, min(shards or NCPU, len(groups)))
    buckets = [[] for _ in range(n)]
    for i, g in enumerate(groups):
        buckets[i % n].extend(g)
    cwd = cwd or workdir()
    envv = child_env(env)
    res = {}
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for r in ex.map(_drv_shard, [(i, b, timeout, envv, cwd, _tagno) for i, b in enumerate(buckets) if b]):
            res.update(r)
    return res


def run_cold(jobs, timeout=60, env=None, cwd=None):
    """Runs every job in its own process, in which nothing has initialised Python before; returns id -> result."""
    global _tagno
    _tagno += 1
    tag, wd = _tagno, workdir()
    envv = child_env(env)

    def one(ij):
        i, j = ij
        jf, rf, err = (os.path.join(wd, f"{k}-{tag}-{i}") for k in ("cold-job", "cold-res", "cold-err"))
        with open(jf, "w") as f:
            f.write(json.dumps(j) + "\n")
        with open(err, "wb") as ef:
            p = subprocess.Popen([DRV, jf, rf, "0", "cold"], stdout=ef, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=envv, cwd=cwd or wd, start_new_session=True)
            try:
                status = p.wait(timeout=limit(timeout))
            except subprocess.TimeoutExpired:
                _hangs.append(f"cold {i}")
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return j["id"], {"id": j["id"], "status": "hang", "error": "the process does not end"}
        lines = open(rf, errors="replace").read().splitlines() if os.path.exists(rf) else []
        if len(lines) == 2 and status == 0:
            return j["id"], json.loads(lines[1])
        if not lines:
            raise Infra(f"cold run did not start (status {status}): {open(err, errors='replace').read()[-1500:]}")
        return j["id"], {"id": j["id"], "status": "crash", "error": f"exit status {status}; output: {open(err, errors='replace').read()[-1500:]}"}

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(one, enumerate(jobs)))


# ---------------------------------------------------------------- rustc
def rustc(src, out=None, bin=False, extra=(), timeout=600, env=None, target=TARGET):
    """Compiles one Rust source against the pyo3 that the bindings use. Returns (ok, output)."""
    deps = os.path.join(target, "debug", "deps")
    cmd = ["rustc", "--edition", "2021", "-A", "warnings", "-L", f"dependency={deps}", "--extern", f"pyo3={rlib('pyo3', target)}",
           "--error-format=short", "-C", "debuginfo=0"]
    if bin:
        cmd += ["--crate-type", "bin", "-C", "opt-level=0", "-C", "codegen-units=8", "-o", out]
    else:
        cmd += ["--crate-type", "lib", "--emit=metadata", "-o", out or src + ".rmeta"]
    cmd += list(extra) + [src]
    try:
        p = _run(cmd, env=child_env(env), timeout=timeout, cwd=os.path.dirname(src))
    except subprocess.TimeoutExpired:
        return None, "rustc timed out"
    return p.returncode == 0, p.stdout


def pmap(fn, items, n=None):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


_canary = None


def canary():
    """The toolchain itself works: hand-written code against the same pyo3 compiles."""
    global _canary
    if _canary is None:
        p = os.path.join(workdir(), "canary.rs")
        with open(p, "w") as f:
            f.write(
                "pub mod m { pub fn f<'py>(py: ::pyo3::marker::Python<'py>) -> ::pyo3::PyResult<i64> {"
                " ::pyo3::types::PyAnyMethods::extract(&::pyo3::types::PyAnyMethods::call_method0("
                "py.import_bound(::pyo3::intern!(py, \"m\"))?.as_any(), ::pyo3::intern!(py, \"f\"))?) } }\n"
            )
        ok, out = rustc(p)
        _canary = (bool(ok), out)
    if not _canary[0]:
        raise Infra("rustc cannot compile the canary: " + _canary[1][-2000:])


# ---------------------------------------------------------------- reporting
def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Report:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.t0 = time.monotonic()
        self.violations = []
        self.known_seen = {}
        self.known = load_known(prop)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.notes = {}
        self.rule = ""
        self.assumptions = []
        self._sampled = {}

    # evidence
    def case(self, key=None, n=1):
        """One evaluated case; `key` identifies it among the distinct non-trivial ones."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:8])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, kind, obj, per_kind=2):
        k = self._sampled.get(kind, 0)
        if k < per_kind:
            self._sampled[kind] = k + 1
            self.samples.append({"kind": kind, "case": obj})

    # verdicts
    def violation(self, what, detail=None, sig=None):
        """`sig` identifies a specific input whose failure may be a recorded finding."""
        if sig is not None and sig in self.known:
            self.known_seen[sig] = self.known_seen.get(sig, 0) + 1
            return
        self.violations.append({"what": what, "sig": sig, "detail": detail})

    def finish(self):
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples[:40],
                "observed": self.counts,
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for sig, n in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {sig}: {self.known[sig]}")
        for i, v in enumerate(self.violations[: int(os.environ.get("VERIF_SHOW", "10"))]):
            path = os.path.join(rdir, f"{self.prop}-{SEED}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, **v}, f, indent=1, default=str)
                f.write("\n")
            print(f"  {str(v['what'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if len(self.violations) > 10:
            print(f"  ... and {len(self.violations) - 10} more violations")
        print(
            f"{self.prop}: {self.evaluations} evaluations, {len(self.distinct)} distinct, "
            f"{len(self.violations)} violations, {ev['wall_s']} s"
        )
        return 1 if self.violations else 0


def main(prop, fn, level="exploration"):
    """Runs a check function `fn(report)` and exits with its verdict."""
    sys.setrecursionlimit(10000)
    rep = Report(prop, level)
    code = 3
    try:
        fn(rep)
        import known
        known.run(prop, rep)
        if rep.evaluations == 0:
            raise Infra("nothing was evaluated")
        code = rep.finish()
    except Infra as e:
        print(f"{prop}: no verdict: {e}")
        code = 3
        if rep.violations:
            code = rep.finish()
    except (OSError, MemoryError, subprocess.SubprocessError):
        print(f"{prop}: no verdict:\n{traceback.format_exc()}")
        if rep.violations:
            code = rep.finish()
    except Exception:
        rep.violation(f"what was observed cannot be interpreted: {traceback.format_exc()[-1500:]}")
        code = rep.finish()
    finally:
        cleanup()
    sys.stdout.flush()
    sys.exit(code)


def rng(*parts):
    return random.Random("/".join(str(p) for p in (SEED,) + parts))


STALE = ["longer", "shorter", "same", "one byte", "first byte", "last byte", "prefix", "extended", "white space", "case", "future", "binary", "huge", "empty before"]


def stale(path, kind, want):
    """Write an earlier content of an output file (bytes `want` are what it has to contain in the end)."""
    n = len(want)
    old = b"// previous content, gr\xc3\xb6\xc3\x9fe\n"
    flip = lambda k: want[:k] + (b"y" if want[k:k + 1] == b"x" else b"x") + want[k + 1:] if n else b"x"
    data = {
        "longer": lambda: old * (n // 10 + 50), "shorter": lambda: b"o", "same": lambda: want, "one byte": lambda: flip(n // 2), "first byte": lambda: flip(0), "last byte": lambda: flip(max(n - 1, 0)),
        "prefix": lambda: want[:n - n // 4 - 1], "extended": lambda: want + b"// tail\n", "white space": lambda: want.replace(b" ", b"\n "), "case": lambda: want.swapcase(), "future": lambda: flip(n // 3),
        "binary": lambda: bytes(range(256)) * (n // 256 + 1), "huge": lambda: old * 100000, "empty before": lambda: b"",
    }[kind]()
    with open(path, "wb") as f:
        f.write(data)
    t = 4102444800 if kind == "future" else 1
    os.utime(path, (t, t))
