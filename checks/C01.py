import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import awkward
import cold
import oracle
import realmods
import vcommon as v
import world

FLAGS = ["traverse_submodules", "generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions",
         "generate_properties", "generate_docs", "include_private", "generate_dependencies", "suppress_python_stdout", "suppress_python_stderr"]
# Not importable in a headless sandbox, or importing them acts on the outside world
SKIP = {"antigravity", "this", "idlelib", "test", "turtledemo", "turtle", "tkinter", "_tkinter", "lib2to3", "ensurepip", "venv", "pydoc_data", "msilib", "winreg", "winsound",
        "nt", "msvcrt", "_winapi", "_msi", "__main__", "_overlapped", "_scproxy", "nturl2path", "_aix_support", "_osx_support", "_bootsubprocess", "distutils"}


def randcfg(r):
    cfg = {k: r.random() < 0.5 for k in FLAGS if r.random() < 0.4}
    cfg.pop("generate_dependencies", None)
    if r.random() < 0.1:
        cfg["generate_dependencies"] = True
        cfg["traverse_submodules"] = False
    if r.random() < 0.2:
        cfg["blocklist_names"] = r.sample(["f", "C", "sub", "", "test", "zz", "alpha"], 3)
    return cfg


def lookup(shape, path):
    m = shape
    for x in path:
        m = m.mods.get(x) if m is not None else None
    return m


def survivors(mod, expect, where):
    """Expected items that are missing from a module of the real bindings."""
    if mod is None:
        return [f"module {where} is missing"]
    out = []
    for n, ps in expect["fns"].items():
        f = mod.fns.get(n)
        if f is None:
            out.append(f"function {where}::{n} is missing")
        elif [p for p, _ in f["params"]][1:] != ps:
            out.append(f"function {where}::{n} has parameters {[p for p, _ in f['params']][1:]} instead of {ps}")
    for n, ms in expect["cls"].items():
        s = mod.structs.get(n)
        if s is None:
            out.append(f"class {where}::{n} is missing")
            continue
        for mn, ps in ms.items():
            f = s.trait.get(mn) or s.assoc.get(mn)
            if f is None:
                out.append(f"method {where}::{n}::{mn} is missing")
            elif [p for p, _ in f["params"] if p != "py"] != ps:
                out.append(f"method {where}::{n}::{mn} has parameters {f['params']} instead of {ps}")
    return out


BASE_EXPECT = {"fns": {"f": ["p_a", "p_b", "p_args", "p_k", "p_kwargs"], "V": [], "set_V": ["p_value"]}, "cls": {"C": {"m": ["p_y"], "new": ["p_x"], "p": []}}}
SUB_EXPECT = {"fns": {"g": ["p_x"]}, "cls": {}}


def total(rep, r, what, detail, cfg=None):
    """The outcome itself: a value, and valid Rust."""
    if r["status"] in ("panic", "crash", "hang"):
        rep.violation(f"{what}: {r['status']}: {str(r.get('error'))[:300]}", detail)
        return False
    if r["status"] in ("pre_error", "drv_panic"):
        raise v.Infra(f"driver failed: {r}")
    if r["status"] == "ok" and not r["syntax"]:
        rep.violation(f"{what}: the output is not valid Rust: {r.get('syntax_error')}", detail)
        return False
    return True


def write(root, files):
    for p, src in files.items():
        path = os.path.join(root, p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(src if isinstance(src, bytes) else src.encode("utf-8", "surrogatepass"))


def snippets(rep):
    """Packages with a few well-known items and one or more awkward ones."""
    r = v.rng("awk")
    root = os.path.join(v.workdir(), "awk")
    jobs, info = [], {}
    cases = [[s] for s in awkward.S]
    for _ in range(400 if v.THOROUGH else 60):
        # several together
        cases.append(r.sample(awkward.S, r.randint(2, 12)))
    for i, group in enumerate(cases):
        name = f"aw{i}"
        src = "\n".join(s["src"] for s in group)
        place = r.choice(["root", "sub", "both"]) if len(group) > 1 else ["root", "sub"][i % 2]
        before = r.random() < 0.5
        rootsrc = awkward.BASE
        subsrc = "def g(x): return x\n"
        if place in ("root", "both"):
            rootsrc = src + "\n" + rootsrc if before else rootsrc + "\n" + src
        if place in ("sub", "both"):
            subsrc = src + "\n" + subsrc if before else subsrc + "\n" + src
        write(root, {f"{name}/__init__.py": rootsrc, f"{name}/sub.py": subsrc})
        cfgs = [None, {"include_private": True}] + [randcfg(r) for _ in range(2)]
        for k, cfg in enumerate(cfgs):
            jobs.append({"id": f"{name}/{k}", "sys_path": [root], "steps": [{"op": "name", "v": name}], "cfg": cfg, "model": k < 2})
            info[f"{name}/{k}"] = (group, place, cfg, k, {"__init__.py": rootsrc, "sub.py": subsrc})
    res = v.run_drv(jobs, timeout=60)
    for jid, (group, place, cfg, k, files) in info.items():
        what = f"{'+'.join(s['name'] for s in group)[:120]} in {place}, configuration {cfg}"
        detail = {"files": files, "cfg": cfg}
        x = res[jid]
        rep.case(jid)
        rep.count("generations for awkward modules")
        if not total(rep, x, what, detail):
            continue
        if x["status"] == "err":
            rep.violation(f"{what}: generation failed: {x['error'][:200]}", detail)
            continue
        if k >= 2:
            continue
        sh = oracle.shape(x["model"])
        name = jid.split("/")[0]
        missing = survivors(lookup(sh, [name]), BASE_EXPECT, name)
        missing += survivors(lookup(sh, [name, "sub"]), SUB_EXPECT, f"{name}::sub")
        for s in group:
            if place in ("root", "both"):
                missing += survivors(lookup(sh, [name]), s["expect"], name)
            if place in ("sub", "both"):
                missing += survivors(lookup(sh, [name, "sub"]), s["expect"], f"{name}::sub")
        rep.count("items that survived awkward neighbours", 9 + sum(len(s["expect"]["fns"]) + len(s["expect"]["cls"]) for s in group))
        for m in missing[:2]:
            rep.violation(f"{what}: {m}", detail)
    for s in awkward.S[:: max(1, len(awkward.S) // 4)]:
        rep.sample("awkward", {"name": s["name"], "source": s["src"][:300]}, 4)


def modules(rep):
    """Awkward modules and broken submodules as a whole."""
    root = os.path.join(v.workdir(), "awm")
    jobs, info = [], {}
    i = 0
    for kind, table in (("module", awkward.MODULES), ("submodule", awkward.SUBMODULES)):
        for n, src in table.items():
            name = f"awm{i}"
            i += 1
            rootsrc, subs = awkward.BASE, {"sub": "def g(x): return x\n"}
            if kind == "module":
                rootsrc += "\n" + (src or "")
            else:
                subs["broken"] = b"\xff\xfe\x00bad" if src is None else src.replace("{root}", name)
                subs["zlast"] = "def g(x): return x\n"
            files = {f"{name}/__init__.py": rootsrc, **{f"{name}/{k}.py": x for k, x in subs.items()}}
            write(root, files)
            for k, cfg in enumerate([None, {"include_private": True}, {"traverse_submodules": False}, {"suppress_python_stdout": False, "suppress_python_stderr": False}]):
                jid = f"{name}/{k}"
                jobs.append([{"id": jid, "sys_path": [root], "steps": [{"op": "name", "v": name}], "cfg": cfg}])
                info[jid] = (kind, n, cfg, files)
    res = v.run_drv(jobs, timeout=60)
    for jid, (kind, n, cfg, files) in info.items():
        what = f"{kind} `{n}`, configuration {cfg}"
        x = res[jid]
        detail = {"files": {k: repr(s)[:500] for k, s in files.items()}, "cfg": cfg}
        rep.case(jid)
        rep.count("generations for awkward modules and broken submodules")
        if not total(rep, x, what, detail):
            continue
        if x["status"] == "err":
            rep.violation(f"{what}: generation failed: {x['error'][:200]}", detail)
            continue
        name = jid.split("/")[0]
        sh = oracle.shape(x["model"])
        if n not in ("empty dir",):
            exp = {"fns": dict(BASE_EXPECT["fns"]), "cls": BASE_EXPECT["cls"]}
            missing = survivors(lookup(sh, [name]), exp, name)
            if (cfg or {}).get("traverse_submodules", True):
                for s in ["sub"] + (["zlast"] if kind == "submodule" else []):
                    missing += survivors(lookup(sh, [name, s]), SUB_EXPECT, f"{name}::{s}")
            for m in missing[:2]:
                rep.violation(f"{what}: {m}", detail)


def unimportable(w):
    """Packages with modules that Python itself cannot import (an awkward item used a builtin that the package redefines, or vice versa)."""
    mods = [(name, m) for name, p in w.pkgs.items() for m in p["order"]]
    prog = "import sys, importlib\nsys.path.insert(0, sys.argv[1])\nfor l in sys.stdin.read().split():\n try: importlib.import_module(l)\n except Exception: print(l, flush=True)\n"
    p = subprocess.run([sys.executable, "-c", prog, w.root], input="\n".join(m for _, m in mods), capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise v.Infra(f"importing the packages failed: {p.stderr[-500:]}")
    bad = set(p.stdout.split())
    if len(bad) > len(mods) // 4:
        raise v.Infra(f"most packages cannot be imported: {sorted(bad)[:5]}")
    return {name for name, m in mods if m in bad}


def random_packages(rep):
    """Random packages with awkward items in random modules, under random configurations."""
    r = v.rng("rnd")
    n = 600 if v.THOROUGH else 120
    w = world.World("tot", 0)
    import pygen

    inj = {}
    for i in range(n):
        pname, po = world.PROFILES[i % len(world.PROFILES)]
        pkg = pygen.gen_package(f"{v.SEED}/tot/{i}", f"tot{i}", {**po, "unutterable": 0.3})
        for s in r.sample(awkward.S, r.randint(0, 4)):
            full = r.choice(pkg["order"])
            if pkg["mods"][full]["private"] or any(f"globals()[{it['n']!r}]" in s["src"] for it in pkg["mods"][full]["items"] if "n" in it):
                # (a snippet that rebinds the name of an item of the module replaces this item)
                continue
            pkg["mods"][full]["items"].insert(r.randint(0, len(pkg["mods"][full]["items"])) if "import" not in s["src"] else 0,
                                              {"k": "other", "n": f"zz{id(s)}", "src": s["src"], "sort": "awkward"})
            inj.setdefault(pkg["name"], []).append((full, s))
        w.add(pkg, pname)
    broken = unimportable(w)
    rep.count("packages that an awkward item makes unimportable (left out)", len(broken))
    jobs = []
    for name in w.pkgs:
        if name in broken:
            continue
        jobs.append(w.job(name, id=f"{name}/d"))
        for k in range(3):
            jobs.append(w.job(name, id=f"{name}/{k}", cfg=randcfg(r), model=False))
    res = v.run_drv(jobs)
    cfgs = {j["id"]: j.get("cfg") for j in jobs}
    for jid, x in res.items():
        name = jid.split("/")[0]
        what = f"{name} with {[s['name'] for _, s in inj.get(name, ())]}, configuration {cfgs[jid]}"
        rep.case(jid)
        rep.count("generations for random packages")
        if not total(rep, x, what, w.detail(name)):
            continue
        if x["status"] == "err":
            rep.violation(f"{what}: generation failed: {x['error'][:300]}", w.detail(name))
            continue
        if jid.endswith("/d"):
            exp = oracle.Node("")
            exp.mods = oracle.Oracle(w.pkgs[name]).tree()
            sh = oracle.shape(x["model"])
            out = []
            oracle.diff_structure(exp, sh, out)
            out = [d for d in out if "missing" in d or "parameters" in d]
            for d in out[:2]:
                rep.violation(f"{what}: {d}", w.detail(name))
            rep.count("items that survived awkward neighbours", oracle.count_items(exp))


def stdlib(rep):
    """Every importable module of the standard library."""
    names = sorted(set(sys.stdlib_module_names) - SKIP)
    cfgs = [{"traverse_submodules": False}, {"traverse_submodules": False, "include_private": True}]
    if v.THOROUGH:
        cfgs += [None, {"include_private": True}]
    jobs = []
    deep = {"json", "collections", "importlib", "logging", "concurrent", "asyncio", "email", "xml", "unittest", "urllib", "http", "os", "multiprocessing", "encodings"}
    for n in names:
        for k, cfg in enumerate(cfgs):
            jobs.append({"id": f"{n}/{k}", "steps": [{"op": "name", "v": n}], "cfg": cfg, "model": False})
        if n in deep and not v.THOROUGH:
            jobs.append({"id": f"{n}/deep", "steps": [{"op": "name", "v": n}], "model": False})
    for n in realmods.third() + (realmods.heavy() if v.THOROUGH else []):
        for k, cfg in enumerate([None, {"include_private": True, "generate_dependencies": True, "traverse_submodules": False}] + ([{"include_private": True}, {"generate_dependencies": True}] if v.THOROUGH else [])):
            jobs.append({"id": f"third-party {n}/{k}", "sys_path": [realmods.SITE], "steps": [{"op": "name", "v": n}], "cfg": cfg, "model": False})
    res = v.run_drv(jobs, timeout=240)
    for j in jobs:
        x = res[j["id"]]
        rep.case(j["id"])
        rep.count("generations for third-party packages" if "third" in j["id"] else "generations for the standard library")
        if total(rep, x, f"standard library {j['id']}", j):
            if x["status"] == "err" and not x["error"].startswith(("ModuleNotFoundError", "ImportError")):
                rep.violation(f"standard library {j['id']}: {x['error'][:300]}", j)
            rep.count(f"generations for {'third-party packages' if 'third' in j['id'] else 'the standard library'}: " + x["status"])


BAD_NAMES = ["", " ", ".", "..", ".os", "os.", "os..path", "no_such_module_zz", "os.no_such", "a b", "os path", "\t", "é_none", "\U0001f600", "x" * 5000, "os.path.no", "1", "-", "a-b",
             "os/path", "__init__", "nul\0name", "os:path", "*", "json.", "json.decoder.JSONDecoder", "sys.path", "...", "fn.x", "r#type"]
IMPORTS = ["raise ValueError('x')", "raise SystemExit(0)", "raise KeyboardInterrupt", "raise SystemExit", "def (", "import zz_missing_dep", "raise ImportError", "1/0", "raise BaseException",
           "raise StopIteration", "raise GeneratorExit", "def r(): r()\nr()", "raise MemoryError", "class E(Exception):\n    def __str__(self): raise ValueError\nraise E", "x = = 1",
           "import sys\nsys.modules[__name__] = None", "raise ValueError('\\ud800')", "raise OSError(5, 'x')", "assert False", "raise Exception(b'\\xff')", "from os import no_such_name"]


def errors(rep):
    """What cannot be imported gives an error value."""
    root = os.path.join(v.workdir(), "err")
    jobs = []
    for i, n in enumerate(BAD_NAMES):
        for op in ("name", "names"):
            steps = [{"op": op, "v": n if op == "name" else ["json", n]}]
            jobs.append([{"id": f"bad {n!r} {op}", "steps": steps}])
    for i, src in enumerate(IMPORTS):
        write(root, {f"failing{i}.py": src + "\n"})
        jobs.append([{"id": f"import of {src!r}", "sys_path": [root], "steps": [{"op": "name", "v": f"failing{i}"}]}])
        jobs.append([{"id": f"source {src!r}", "steps": [{"op": "str", "v": f"src{i}", "src": src + "\n"}]}]) if "sys.modules" not in src else None
    jobs.append([{"id": "nothing requested", "steps": []}])
    jobs.append([{"id": "empty list", "steps": [{"op": "names", "v": []}]}])
    jobs.append([{"id": "source with null byte", "steps": [{"op": "str", "v": "srcnul", "src": "x = 1\0"}]}])
    jobs.append([{"id": "source named nothing", "steps": [{"op": "str", "v": "", "src": "x = 1"}]}])
    res = v.run_drv(jobs)
    for j in jobs:
        j = j[0]
        x = res[j["id"]]
        rep.case(j["id"])
        rep.count("requests that cannot be satisfied")
        if total(rep, x, j["id"], j) and x["status"] != "err":
            rep.violation(f"{j['id']}: bindings instead of an error: {str(x)[:200]}", j)


def cold_starts(rep):
    """The generator is the first in its process that needs Python."""
    root = os.path.join(v.workdir(), "cold")
    write(root, {"coldm.py": "def f(a: int) -> str:\n    'doc'\nclass C:\n    def m(self): ...\n", "coldbad.py": "raise ValueError('no')\n", "coldp/__init__.py": "x = 1\n", "coldp/sub.py": "def g(): ...\n"})
    src = {"op": "str", "v": "coldsrc", "src": "import json\ndef f(a: int) -> str: ...\n"}
    jobs = [
        ("a name", [{"op": "name", "v": "coldm"}]), ("names", [{"op": "names", "v": ["coldp.sub", "coldm"]}]), ("the standard library", [{"op": "name", "v": "json"}]), ("a source", [src]), ("a name and a source", [{"op": "name", "v": "coldm"}, src]),
        ("a source in a package", [{"op": "str", "v": "coldp.more", "src": "x = 1\n"}]), ("a missing module", [{"op": "name", "v": "zz_no_such_module"}]), ("a failing module", [{"op": "name", "v": "coldbad"}]), ("nothing", []), ("no names", [{"op": "names", "v": []}]),
        ("a source with an error", [{"op": "str", "v": "coldsrc", "src": "def f(:\n"}]), ("a source that fails", [{"op": "str", "v": "coldsrc", "src": "1 / 0\n"}]), ("a copy of nothing", [{"op": "clone"}]), ("an empty source", [{"op": "str", "v": "coldsrc", "src": ""}]),
    ]
    off = {"suppress_python_stdout": False, "suppress_python_stderr": False}
    cold.watch(rep, [{"id": f"cold start with {n}{' without suppression' if c == off else ' with dependencies' if c else ''}", "steps": s, "cfg": c} for n, s in jobs for c in (None, off, {"generate_dependencies": True, "traverse_submodules": False})], root)


def check(rep):
    rep.rule = (
        "generation is driven over (a) a catalogue of awkward attributes, modules and broken submodules, alone and combined, (b) random"
        " packages with awkward items under random configurations, (c) the standard library and third-party packages, (d) requests that cannot be satisfied, (e) all of this as the first that needs Python in a process; the"
        " monitor sees panics, crashes, hangs, errors, unparsable output and lost items; a case is a distinct request"
    )
    v.build_drv()
    snippets(rep)
    modules(rep)
    random_packages(rep)
    stdlib(rep)
    errors(rep)
    cold_starts(rep)


v.main("C01", check)
