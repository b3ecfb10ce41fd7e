import ast
import hashlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pygen
import realmods
import vcommon as v
import world

FLAGS = ["traverse_submodules", "generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions",
         "generate_properties", "generate_docs", "include_private"]
STD = ["json", "collections", "logging", "os", "email", "concurrent", "http", "string", "enum", "xml", "typing", "re", "argparse", "decimal", "importlib", "urllib", "datetime", "dataclasses"]


def randcfg(r):
    return None if r.random() < 0.5 else {k: r.random() < 0.6 for k in r.sample(FLAGS, 4)}


def check(rep):
    rep.rule = (
        "the same request is generated repeatedly in one process, in further processes with other hash seeds, working directories, locales and preceding (also failing)"
        " generations, from copies of the generator, and through all equivalent ways of naming the modules; all token sequences must be identical; a case is a"
        " distinct (request, circumstances) pair"
    )
    v.build_drv()
    cached(rep)
    history(rep)
    r = v.rng("c10")
    w = world.World("de", 240 if v.THOROUGH else 64)
    names = list(w.pkgs)
    requests = {}
    for i, n in enumerate(names):
        mods = [m for m in w.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
        kinds = [[n]]
        if i % 2:
            # several modules, also of other packages
            some = r.sample(mods, min(len(mods), 3)) + r.sample(names, 2)
            r.shuffle(some)
            kinds.append(some)
        for k, req in enumerate(kinds):
            requests[f"{n}/{k}"] = (req, randcfg(r))
    for n in STD:
        requests[f"std-{n}"] = ([n], randcfg(r) if n not in ("email", "xml") else None)
    third = realmods.third()
    for n in r.sample(third, min(len(third), 40 if v.THOROUGH else 14)):
        requests[f"third-{n}"] = ([n], randcfg(r))
    src = "def f(a, b: int = 1) -> int:\n    return b\nclass C:\n    def m(self): return 1\nx = 1\ny = 'a'\n__all__ = ['C']\n"
    emb = {"emb_a": src, "emb_b": src.replace("x =", "z ="), "emb_c": "k = 1\n" + src}

    def steps(req, form):
        if form == "names":
            return [{"op": "names", "v": req}]
        if form == "module":
            return [{"op": "module", "v": x} for x in req]
        if form == "modules":
            return [{"op": "modules", "v": req}]
        s = [{"op": "name", "v": x} for x in req]
        if form == "clone":
            return [y for x in s for y in (x, {"op": "clone"})]
        return s

    def job(key, tag, form="name", **kw):
        req, cfg = requests[key]
        return {"id": f"{key} {tag}", "sys_path": [realmods.SITE] if key.startswith("third-") else [w.root], "steps": steps(req, form), "cfg": cfg, "tokens": True, "model": False, **kw}

    def embjob(tag, **kw):
        return {"id": f"embedded {tag}", "steps": [{"op": "str", "v": n, "src": s} for n, s in emb.items()], "tokens": True, "model": False, **kw}

    runs = []  # (label, results)
    base = v.run_drv([job(k, "base", repeat=3) for k in requests] + [embjob("base", repeat=3)])
    runs.append(("base", base))
    failing = {"id": None, "steps": [{"op": "name", "v": "no_such_module_zz"}], "model": False}
    other = {"id": None, "sys_path": [w.root], "steps": [{"op": "name", "v": names[0]}], "cfg": {"include_private": True}, "model": False}
    cwd2 = os.path.join(v.workdir(), "elsewhere")
    os.makedirs(cwd2, exist_ok=True)
    circ = [
        ("names", dict(form="names"), {"PYTHONHASHSEED": "0"}, None),
        ("module", dict(form="module"), {"PYTHONHASHSEED": "1", "LC_ALL": "C.UTF-8"}, cwd2),
        ("modules", dict(form="modules"), {"PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo", "COLUMNS": "40"}, None),
        ("clone", dict(form="clone"), {"PYTHONHASHSEED": "99", "HOME": cwd2}, cwd2),
    ]
    if v.THOROUGH:
        circ += [(f"seed {i}", dict(form=r.choice(["name", "names", "clone"])), {"PYTHONHASHSEED": str(r.randint(0, 2**32 - 1))}, None) for i in range(12)]
    for label, kw, env, cwd in circ:
        jobs = []
        for i, k in enumerate(requests):
            group = []
            if i % 3 == 0:
                group.append({**failing, "id": f"fail {label} {i}"})
            if i % 3 == 1:
                group.append({**other, "id": f"other {label} {i}"})
            group.append(job(k, label, **kw))
            jobs.append(group)
        jobs.append(embjob(label))
        r.shuffle(jobs)
        runs.append((label, v.run_drv(jobs, env=env, cwd=cwd, shards=r.choice([3, 5, 8]))))
    for key in list(requests) + ["embedded"]:
        want = None
        for label, res in runs:
            x = res[f"{key} {label}"]
            detail = {"request": requests.get(key, emb), "circumstances": label, **(w.detail(key.split("/")[0]) if "/" in key else {})}
            rep.case(f"{key}/{label}")
            if x["status"] != "ok":
                if x["status"] in ("pre_error", "drv_panic"):
                    raise v.Infra(str(x))
                rep.violation(f"{key} ({label}): no bindings: {str(x)[:300]}", detail)
                continue
            rep.count("token sequences compared", x.get("same", 1))
            if x.get("differs_at") is not None:
                rep.violation(f"{key}: repeating the generation gives another result: {where(x['tokens'], str(x['other'].get('tokens', x['other'])))}", detail)
            if want is None:
                want = x["tokens"]
                rep.count("distinct results", 1)
                rep.count("bytes of tokens", len(want))
                rep.sample("result", {"request": requests.get(key, list(emb)), "sha256": hashlib.sha256(want.encode()).hexdigest(), "length": len(want)}, 6)
            elif want != x["tokens"]:
                rep.violation(f"{key}: another result ({label}): {where(want, x['tokens'])}", detail)


KINDS = ["set", "frozenset", "type", "dt.timedelta", "tuple", "list", "dict", "C", "E", "list[int]", "list[set]", "dict[str, C]", "pathlib.Path", "dt.date", "object", "slice", "bytes", "t.Any", "t.List[int]", "t.Callable", "abc.Callable[[int], str]",
         "abc.Sequence", "tuple[int, str]", "bytearray", "complex", "int", "float", "t.Set[C]", "ipaddress.IPv4Address", "t.Type[C]", "t.Mapping", "abc.Iterable[int]", "decimal.Decimal", "range", "C.In"]
FORMS = [("t.List[{x} | None]", "t.List[t.Optional[{x}]]"), ("t.Dict[str, None | {x}]", "t.Dict[str, t.Union[{x}, None]]"), ("t.Optional[{x}]", "t.Union[None, {x}]"), ("t.Tuple[{x} | None, int]", "t.Tuple[t.Optional[{x}], int]"),
         ("t.List[list[{x} | None]]", "t.List[list[t.Optional[{x}]]]"), ("t.List[{x} | int | None]", "t.List[t.Union[None, int, {x}]]"), ("t.Callable[[{x} | None], int]", "t.Callable[[t.Optional[{x}]], int]")]


def cached(rep):
    """Python keeps `typing` objects and uses them again for equal annotations that are written in another way, even in other modules."""
    root = os.path.join(v.workdir(), "py-cached")
    os.makedirs(root)
    head = "import typing as t, datetime as dt, collections.abc as abc, pathlib, ipaddress, decimal\nfrom zzcc import C, E\n"
    with open(os.path.join(root, "zzcc.py"), "w") as f:
        f.write("import enum\nclass C:\n    class In: ...\nclass E(enum.Enum):\n    A = 1\n")
    jobs, info = [], {}
    for i, (a, b) in enumerate(FORMS + [(b, a) for a, b in FORMS]):
        for k, form in enumerate((a, b)):
            with open(os.path.join(root, f"zzc{i}_{k}.py"), "w") as f:
                f.write(head + "".join(f"def f{j}(a: {form.format(x=x)}, *, b: {form.format(x=x)}) -> {form.format(x=x)}: ...\n" for j, x in enumerate(KINDS)))
        n = f"zzc{i}_0"
        j = {"sys_path": [root], "steps": [{"op": "names", "v": ["zzcc", n]}], "tokens": True, "model": False}
        clear = "import typing\nfor f in typing._cleanups: f()"
        info[n] = (a, b)
        jobs.append([{**j, "id": f"alone {n}", "pre": clear + f"\nimport sys\nsys.modules.pop({n!r}, None)"},
                     {**j, "id": f"after {n}", "pre": clear + f"\nimport sys\nsys.path.insert(0, {root!r})\nsys.modules.pop({n!r}, None)\nimport zzc{i}_1"}])
    res = v.run_drv(jobs)
    for n, (a, b) in info.items():
        x, y = res[f"alone {n}"], res[f"after {n}"]
        if "pre_error" in (x["status"], y["status"]):
            raise v.Infra(str((x, y))[:800])
        rep.case(("cached", a, b))
        rep.count("equal annotations compared", 3 * len(KINDS))
        if x.get("tokens") != y.get("tokens") or x["status"] != "ok":
            rep.violation(f"annotations {a}: another result after another module that uses {b}: {where(str(x.get('tokens', x)), str(y.get('tokens', y)))}", {"forms": [a, b]})


SELF = {"self", "cls"}


def mutate(r, src):
    """The same names with other contents: kinds of methods, parameters, annotations, documentation, values, bases."""
    t = ast.parse(src)
    for node in ast.walk(t):
        if isinstance(node, ast.ClassDef):
            for f in node.body:
                if isinstance(f, ast.FunctionDef) and not f.name.startswith("__") and r.random() < 0.6:
                    names = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                    if len(names) == len(f.decorator_list) and all(n in ("staticmethod", "classmethod", "property") for n in names):
                        f.decorator_list = [ast.Name(n, ast.Load()) for n in r.choice([[], ["staticmethod"], ["classmethod"], ["property"]])]
            if r.random() < 0.2:
                node.bases = node.bases[:-1]
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and r.random() < 0.4 and node.body:
            if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                node.body[0].value = ast.Constant(f"other {r.random()}")
            elif not (isinstance(node.body[0], ast.ImportFrom) and node.body[0].module == "__future__"):
                node.body.insert(0, ast.Expr(ast.Constant(f"new {r.random()}")))
        if isinstance(node, ast.FunctionDef) and r.random() < 0.5:
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if r.random() < 0.5 and x.arg not in SELF:
                    x.annotation = r.choice([None, ast.parse(r.choice(["int", "str", "list[int]", "'dict[str, int]'", "float | None"]), mode="eval").body])
            if r.random() < 0.3:
                a.kwonlyargs.append(ast.arg("zz_more"))
                a.kw_defaults.append(ast.Constant(1))
            if r.random() < 0.3:
                node.returns = r.choice([None, ast.Name("int", ast.Load()), ast.Name("bool", ast.Load())])
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and r.random() < 0.5:
            node.value = ast.Constant(r.choice([1, "x", None, 1.5]))
    return ast.unparse(ast.fix_missing_locations(t))


def history(rep):
    """Equal names that mean something else later in the same process: only what is there now matters."""
    r = v.rng("c10-history")
    w = world.World("hi", 90 if v.THOROUGH else 36, profiles=["classes", "default", "exports", "types", "deep", "clashes", "confusing", "parallel"])
    versions = {}
    for n in w.pkgs:
        for k in range(1, 4):
            root = os.path.join(v.workdir(), f"py-hi-{k}")
            base = os.path.join(w.root, n)
            files = [os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs if f.endswith(".py")] if os.path.isdir(base) else [base + ".py"]
            os.makedirs(root, exist_ok=True)
            with open(os.path.join(root, "vrec.py"), "w") as o:
                o.write(open(os.path.join(w.root, "vrec.py")).read())
            for f in files:
                to = os.path.join(root, os.path.relpath(f, w.root))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                with open(f, encoding="utf-8") as i, open(to, "w", encoding="utf-8") as o:
                    o.write(mutate(r, i.read()))
        versions[n] = [w.root] + [os.path.join(v.workdir(), f"py-hi-{k}") for k in range(1, 4)]
    jobs, alone = [], []
    for n, roots in versions.items():
        some = [m for m in w.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
        req = [n] if r.random() < 0.6 else r.sample(some, min(len(some), 2))
        cfg = randcfg(r)

        def job(k, tag):
            fresh = (f"import sys, importlib, typing\nsys.path[:] = [p for p in sys.path if '/py-hi' not in p]\nsys.path.insert(0, {roots[k]!r})\n"
                     f"for k in list(sys.modules):\n    if k == 'vrec' or k.split('.')[0] == {n!r}: del sys.modules[k]\nimportlib.invalidate_caches()\nfor f in typing._cleanups: f()\n")
            return {"id": f"{n} {k} {tag}", "pre": fresh, "steps": [{"op": "name", "v": x} for x in req], "cfg": cfg, "tokens": True, "model": False}

        order = list(range(4))
        r.shuffle(order)
        jobs.append([job(k, "later") for k in order] + [job(k, "again") for k in order[::-1]])
        alone += [job(k, "alone") for k in order]
    # (every version of a package alone in its process: as many groups as there are versions)
    res = v.run_drv(jobs)
    for k in range(4):
        res.update(v.run_drv([j for j in alone if j["id"].split()[1] == str(k)]))
    for n, roots in versions.items():
        want = {}
        for k in range(4):
            a = res[f"{n} {k} alone"]
            if a["status"] in ("pre_error", "drv_panic"):
                raise v.Infra(str(a)[:800])
            want[k] = a.get("tokens", a.get("error"))
            for tag in ("later", "again"):
                b = res[f"{n} {k} {tag}"]
                if b["status"] in ("pre_error", "drv_panic"):
                    raise v.Infra(str(b)[:800])
                rep.case(("history", n, k, tag))
                rep.count("modules generated after others of the same name")
                if (a["status"], want[k]) != (b["status"], b.get("tokens", b.get("error"))):
                    rep.violation(f"{n}: another result after another module of this name: {where(str(want[k]), str(b.get('tokens', b.get('error'))))}",
                                  {"versions": [{f: open(os.path.join(d, f)).read() for d, _, fs in os.walk(x) for f in fs if d.startswith(os.path.join(x, n)) or f == n + ".py"} for x in (roots[k],)]})
        rep.count("distinct versions", len(set(map(str, want.values()))))


def where(a, b):
    k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return f"...{a[max(0, k - 60):k + 80]!r} versus ...{b[max(0, k - 60):k + 80]!r}"


v.main("C10", check)
