"""Packages that import from each other, and the modules that dependencies add to the bindings."""
import os
import random

import oracle
import pygen


def allowed(name, owner, cfg):
    """The rule of the configuration for one name in a module."""
    private = cfg.get("include_private", False)
    if name in cfg.get("blocklist_names", oracle.CFG["blocklist_names"]):
        return False
    return private or not (name.startswith("_") or any(s.startswith("_") for s in owner))


def package(r, name, private):
    """Random package: modules with functions, classes and private submodules; {module: {"src", "own"}}."""
    mods = {}
    counter = [0]

    def add(full, depth):
        own = {}
        src = ""
        for _ in range(r.randint(2, 4)):
            counter[0] += 1
            k = r.choice(["fn", "cls"])
            n = ("_" if r.random() < 0.15 else "") + r.choice(["north", "match", "glass", "Ridge", "amber", "Self", "type"]) + str(counter[0])
            own[n] = k
            src += f"def {n}(a: int, *, b=1): return {counter[0]}\n" if k == "fn" else f"class {n}:\n    def m{counter[0]}(self, q: str) -> bool: ...\n"
        mods[full] = {"src": src, "own": own, "subs": [], "pkg": depth > 0}
        if depth > 0:
            for n in r.sample(pygen.WORDS, r.randint(1, 3)):
                n = ("_" if r.random() < private else "") + n
                if n in ("test", "tests", "testing", "builtins"):
                    continue
                mods[full]["subs"].append(n)
                add(f"{full}.{n}", depth - 1 if r.random() < 0.5 else 0)

    add(name, 2)
    # re-exports from below; they do not change where things come from
    for full, m in mods.items():
        below = [x for x in mods if x.startswith(full + ".")]
        for x in r.sample(below, min(len(below), r.randint(0, 2))):
            n = r.choice(sorted(mods[x]["own"]))
            m["src"] += f"from {x} import {n}\n"
            m.setdefault("reexports", []).append((n, x))
    return mods


def scenario(seed, i, root):
    r = random.Random(f"deps/{seed}/{i}")
    name = f"dp{i}"
    deps = {}
    for k in range(r.randint(1, 4)):
        d = f"{'_' if r.random() < 0.1 else ''}{name}{r.choice(['x', '_', 'z'])}{k}"
        deps[d] = package(r, d, 0.3)
    main = package(r, name, 0.25)
    imports = []
    targets = [(d, m) for d in deps for m in deps[d]]
    n = 0
    for full, m in main.items():
        for _ in range(r.randint(0, 3)):
            d, x = r.choice(targets)
            n += 1
            kind = r.choice(["item", "item", "item", "module", "re"])
            alias = r.choice(["", "", "plain", "_hidden", "used"])
            alias = f"{alias}_{n}" if alias else ""
            if kind == "module":
                if x == d:
                    m["src"] += f"import {d}" + (f" as {alias}" if alias else "") + "\n"
                    got = alias or d
                else:
                    p, _, last = x.rpartition(".")
                    got = alias or f"{last.strip('_')}_{n}"
                    m["src"] += f"from {p} import {last} as {got}\n"
                imports.append((full, got, x, None))
            else:
                if kind == "re" and deps[d][x].get("reexports"):
                    it, origin = r.choice(deps[d][x]["reexports"])
                else:
                    it, origin = r.choice(sorted(deps[d][x]["own"])), x
                m["src"] += f"from {x} import {it}" + (f" as {alias}" if alias else "") + "\n"
                imports.append((full, alias or it, origin, it))
    # dependencies use each other; that adds nothing
    for d in deps:
        d2, x = r.choice(targets)
        if d2 > d:
            deps[d][d]["src"] = f"from {x} import {r.choice(sorted(deps[d2][x]['own']))} as zz_other\n" + deps[d][d]["src"]
    cfg = {"generate_dependencies": True}
    if r.random() < 0.3:
        cfg["include_private"] = True
    if r.random() < 0.25:
        cfg["traverse_submodules"] = False
    if r.random() < 0.5:
        names = sorted({a for _, a, _, _ in imports} | {n for _, _, _, n in imports if n} | {s for _, _, o, _ in imports for s in o.split(".")})
        if names:
            cfg["blocklist_names"] = list(oracle.CFG["blocklist_names"]) + r.sample(names, min(len(names), r.randint(1, 2)))
    for s in ("generate_imports", "generate_classes", "generate_functions", "generate_docs"):
        if r.random() < 0.12:
            cfg[s] = False
    files = {}
    for mods in [main, *deps.values()]:
        for full, m in mods.items():
            p = full.replace(".", "/")
            files[p + "/__init__.py" if m["pkg"] else p + ".py"] = m["src"]
    for f, src in files.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as o:
            o.write(src)
    return {"id": name, "files": files, "cfg": cfg, "added": added(name, main, imports, cfg)}


def added(name, main, imports, cfg):
    """Modules that the dependencies add."""
    out = []
    for full, alias, origin, item in imports:
        segs = full.split(".")
        if not all(allowed(segs[i], segs[:i], cfg) for i in range(1, len(segs))):
            continue
        if len(segs) > 1 and not cfg.get("traverse_submodules", True):
            continue
        owner = origin.split(".")
        if not allowed(alias, owner if item else [], cfg):
            continue
        path = owner + ([item] if item else [])
        if not all(allowed(path[i], path[:i], cfg) for i in range(len(path))):
            continue
        if origin not in out:
            out.append(origin)
    return out


def content(shape):
    """Everything in the bindings, as comparable values."""
    out = {}
    for m in shape.walk():
        p = "::".join(m.path)
        if m.path:
            out[p] = ("module", tuple(m.docs))
        for n, u in m.uses.items():
            out[f"{p}: use {n}"] = ("use", str(u))
        if m.prelude is not None:
            out[f"{p}: prelude"] = ("prelude", sorted(map(str, m.prelude[1])))
        for n, f in m.fns.items():
            out[f"{p}::{n}"] = ("function", str(f))
        for n, t in m.types.items():
            out[f"{p}::{n}"] = ("type", str(t))
        for n, s in m.structs.items():
            out[f"{p}::{n}"] = ("class", str(s.item))
            for d in ("assoc", "trait"):
                for k, f in getattr(s, d).items():
                    out[f"{p}::{n}::{k}"] = ("member", str(f))
    return out
