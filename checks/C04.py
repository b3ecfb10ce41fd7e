import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import deps
import oracle
import pygen
import vcommon as v
import world

SWITCHES = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs"]
BLOCK0 = list(oracle.CFG["blocklist_names"])


def flat(sh, out=None):
    """All items of real bindings: path -> (kind, comparable content, docs)."""
    out = {} if out is None else out
    for m in sh.walk():
        p = "::".join(m.path)
        if m.path:
            out[p] = ("module", None, tuple(m.docs))
        for n, f in m.fns.items():
            out[f"{p}::{n}"] = ("function", sig(f), tuple(f["docs"]))
        for n, t in m.types.items():
            out[f"{p}::{n}"] = ("type variable", t["ty"], tuple(t["docs"]))
        for n, s in m.structs.items():
            out[f"{p}::{n}"] = ("class", s.item["fields"], tuple(s.docs))
            for d in ("assoc", "trait"):
                for k, f in getattr(s, d).items():
                    out[f"{p}::{n}::{k}"] = ("member", sig(f), tuple(f["docs"]))
    return out


def sig(f):
    return (tuple(map(tuple, f["params"])), f["ret"], f.get("body"))


def private_path(path):
    return any(x.lstrip("r#").startswith("_") or x.startswith(("get__", "set__")) for x in path.split("::"))


def private_items(pkg, full, cfg):
    """Names of private functions, classes and submodules that exist in a module."""
    m = pkg["mods"][full]
    last = {it["n"]: it for it in m["items"]}
    for n, it in last.items():
        if n.startswith("_") and not n.startswith("__") and n not in cfg.get("blocklist_names", BLOCK0) and it["k"] in ("fn", "cls") and it.get("flavor") not in ("partial", "rawdeco"):
            yield it["k"], n


def of_private(pkg):
    """Paths of functions that say that they are defined in a private module."""
    for full in pkg["order"]:
        items = {it["n"]: it for it in pkg["mods"][full]["items"]}
        for n, it in items.items():
            it = items.get(it["of"], it) if it["k"] == "alias" else it
            home = it["origin"][0] if it["k"] == "import" and it["origin"] else it.get("home", "")
            if any(s.startswith("_") for s in home.split(".")) and not any(oracle.rs(s) is None for s in full.split(".")):
                yield "::".join([*map(oracle.rs, full.split(".")), oracle.fn_name(n)])


def check(rep):
    rep.rule = (
        "every package is generated under the default configuration, with every single switch flipped, with blocklists of names that it uses, with private items,"
        " without traversal, and under random combinations; each result is compared with the item tree expected for that configuration, and every item that"
        " remains is compared (signature, body, documentation) with the same item of the default configuration; with dependencies, the bindings must equal those of an"
        " explicit request for the requested modules and the owners of what they import (known by construction); a case is a distinct pair of package and configuration"
    )
    v.build_drv()
    r = v.rng("c04")
    w = world.World("cf", 240 if v.THOROUGH else 110)
    jobs, info = [], {}
    for name, pkg in w.pkgs.items():
        names = sorted({it["n"] for m in pkg["mods"].values() for it in m["items"]} | {s for m in pkg["mods"].values() for s in m["subs"]}
                       | {x["n"] for m in pkg["mods"].values() for it in m["items"] if it["k"] == "cls" for x in it["methods"] + it["props"]})
        cfgs = {"default": None}
        for s in SWITCHES:
            cfgs[f"no {s}"] = {s: False}
        cfgs["no traversal"] = {"traverse_submodules": False}
        cfgs["private"] = {"include_private": True}
        for k in range(3):
            cfgs[f"blocklist {k}"] = {"blocklist_names": (BLOCK0 if k else []) + r.sample(names, min(len(names), 1 + k))}
        cfgs["no blocklist"] = {"blocklist_names": []}
        cfgs["private, blocklist"] = {"include_private": True, "blocklist_names": BLOCK0 + r.sample(names, min(len(names), 2))}
        for k in range(8 if v.THOROUGH else 3):
            c = {s: r.random() < 0.5 for s in SWITCHES}
            if r.random() < 0.3:
                c["traverse_submodules"] = False
            if r.random() < 0.3:
                c["blocklist_names"] = BLOCK0 + r.sample(names, min(len(names), 2))
            cfgs[f"mixed {k}"] = c
        for k, (what, cfg) in enumerate(cfgs.items()):
            jid = f"{name}/{what}"
            jobs.append(w.job(name, id=jid, cfg=cfg, bodies=True))
            info[jid] = (name, what, cfg)
    res = v.run_drv(jobs)
    base = {}
    for jid, (name, what, cfg) in info.items():
        x = res[jid]
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x))
        if x["status"] != "ok" or not x["syntax"]:
            rep.violation(f"{name}, {cfg}: no bindings: {str(x)[:300]}", w.detail(name))
            continue
        try:
            sh = oracle.shape(x["model"])
            one(rep, w, r, name, what, cfg, x["model"], sh, base)
        except RecursionError:
            rep.violation(f"{name}, {cfg}: endless chain of re-exports", w.detail(name))
    dependencies(rep)


def dependencies(rep):
    """With dependencies, the bindings are those of the requested and of the modules that own what they import."""
    root = os.path.join(v.workdir(), "py-deps")
    cases, jobs = {}, []
    for i in range(900 if v.THOROUGH else 180):
        s = deps.scenario(v.SEED, i, root)
        cases[s["id"]] = s
        step = {"op": "name", "v": s["id"]}
        jobs.append({"id": s["id"], "sys_path": [root], "cfg": s["cfg"], "steps": [step], "bodies": True})
        jobs.append({"id": s["id"] + "/union", "sys_path": [root], "cfg": {**s["cfg"], "generate_dependencies": False},
                     "steps": [step] + [{"op": "name", "v": m} for m in s["added"]], "bodies": True})
    res = v.run_drv(jobs)
    for n, s in cases.items():
        detail = {k: s[k] for k in ("files", "cfg", "added")}
        xs = res[n], res[n + "/union"]
        if any(x["status"] in ("pre_error", "drv_panic") for x in xs):
            raise v.Infra(str(xs)[:1000])
        if any(x["status"] != "ok" or not x.get("syntax") for x in xs):
            rep.violation(f"{n}, {s['cfg']}: no bindings: {str(xs)[:400]}", detail)
            continue
        a, b = (deps.content(oracle.shape(x["model"])) for x in xs)
        rep.case(("dependencies", n, repr(s["cfg"])))
        rep.count("results with dependencies")
        rep.count("modules added by dependencies", len(s["added"]))
        rep.count("items compared with dependencies", len(b))
        rep.sample("dependencies", {"configuration": s["cfg"], "added": s["added"], "items": len(b)}, 3)
        bad = [f"{p} is missing" for p in b if p not in a] + [f"{p} is unexpected" for p in a if p not in b] + [f"{p} is {a[p]} instead of {b[p]}" for p in a if p in b and a[p] != b[p]]
        for x in bad[:3]:
            rep.violation(f"{n} with dependencies, {s['cfg']}, expected in addition {s['added']}: {x[:500]}", detail)


def one(rep, w, r, name, what, cfg, model, sh, base):
    pkg = w.pkgs[name]
    cfg_ = cfg or {}
    items = flat(sh)
    if what == "default":
        base[name] = items
    rep.case(f"{name}/{cfg}")
    rep.count("results for: " + what.rstrip(" 0123456789"))
    bad = []
    if not cfg_.get("include_private"):
        diff, n, exp, act = world.compare(pkg, model, ["odd", "structure", "types", "uses"] + (["docs"] if cfg_.get("generate_docs", True) else []), cfg=cfg)
        rep.count("items compared with the expected tree", n)
        for s, ds in diff.items():
            bad += ds[:2]
    if not cfg_.get("generate_docs", True):
        for p, (k, _, docs) in items.items():
            if docs:
                bad.append(f"{p} is documented: {docs}")
    # the rest stays as it is
    b = base.get(name)
    if b is not None and what != "default":
        private = cfg_.get("include_private")
        types_stay = cfg_.get("generate_classes", True) and cfg_.get("traverse_submodules", True) and not cfg_.get("blocklist_names") and cfg_.get("generate_imports", True) and not private
        for p, (k, content, docs) in items.items():
            if p not in b:
                continue
            bk, bcontent, bdocs = b[p]
            rep.count("items compared with the default configuration")
            if k != bk or cfg_.get("blocklist_names") and re.fullmatch(r"(r#)?(new|call|get_|set_).*", p.rsplit("::", 1)[-1]):
                # constructors and accessors may take over the names of removed items
                continue
            if cfg_.get("generate_docs", True) and docs != bdocs:
                bad.append(f"the documentation of {p} changed: {docs} instead of {bdocs}")
            if types_stay and content != bcontent:
                bad.append(f"{p} changed: {str(content)[:300]} instead of {str(bcontent)[:300]}")
        if private and "blocklist_names" not in cfg_:
            foreign = set(of_private(pkg))
            for p in b:
                if p not in items and not maybe_renamed(p, b, items):
                    bad.append(f"{p} disappeared because of private items")
            for p in items:
                if p not in b and not private_path(p) and p not in foreign and not maybe_renamed(p, b, items):
                    bad.append(f"{p} is not private but appears with private items")
        if private:
            for full in pkg["order"]:
                segs = full.split(".")
                if any(s in cfg_.get("blocklist_names", BLOCK0) for s in segs[1:]) or any(oracle.rs(s) is None for s in segs):
                    continue
                where = "::".join(oracle.rs(s) for s in segs)
                if where not in items:
                    bad.append(f"module {where} is missing among the private items")
                    continue
                for k, n in private_items(pkg, full, cfg_):
                    p = f"{where}::{oracle.struct_name(n) if k == 'cls' else oracle.fn_name(n)}"
                    rep.count("private items looked up")
                    if p not in items:
                        bad.append(f"private {k} {p} is missing")
    if r.random() < 0.01:
        rep.sample("configuration", {"package": name, "configuration": cfg, "items": len(items)}, 10)
    for x in bad[:3]:
        rep.violation(f"{name}, configuration {cfg}: {x}", w.detail(name))


def maybe_renamed(p, a, b):
    """Accessors give way to other names: `x` and `get_x` are the same getter."""
    mod, n = p.rsplit("::", 1) if "::" in p else ("", p)
    n = n[2:] if n.startswith("r#") else n
    alts = [f"{mod}::get_{n}", f"{mod}::set_{n}"] + ([f"{mod}::{n[4:]}", f"{mod}::r#{n[4:]}"] if n.startswith(("get_", "set_")) else [])
    return any(x in a or x in b for x in alts)


v.main("C04", check)
