import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import oracle
import realmods
import vcommon as v
import world


def strip(x):
    """Items without their documentation."""
    if isinstance(x, dict):
        return {k: strip(y) for k, y in x.items() if k != "docs"}
    return [strip(y) for y in x] if isinstance(x, list) else x


def skeleton(x):
    if isinstance(x, dict):
        return (x.get("kind"), x.get("name"), x.get("self"), [p for p, _ in x.get("params", ())], skeleton(x.get("items")), x.get("uses"))
    return [skeleton(y) for y in x] if isinstance(x, list) else x


def docs_of(x, out, path=()):
    if isinstance(x, list):
        for y in x:
            docs_of(y, out, path)
    elif isinstance(x, dict):
        p = path + (x.get("kind"), x.get("name") or x.get("self"))
        if x.get("docs"):
            out.append((p, oracle.norm_doc("\n".join(x["docs"]))))
        docs_of(x.get("items"), out, p)
    return out


def check(rep):
    rep.rule = (
        "the documentation of every module, class, function, method and accessor in the real bindings of random packages with (mostly hostile) docstrings is compared"
        " with the docstring of the Python item it belongs to; the same bindings without documentation must consist of the same code; formatting the"
        " bindings as doc comments and reading them back must preserve everything; a case is a distinct documented item"
    )
    v.build_drv()
    w = world.World("do", 0)
    n = 1600 if v.THOROUGH else 320
    for i in range(n):
        pname, po = world.PROFILES[i % len(world.PROFILES)]
        import pygen
        po = {**po, "doc": [0.9, 0.6, 0.3][i % 3], "doc_hard": [1.0, 0.5, 0.8, 0.2][i % 4]}
        w.add(pygen.gen_package(f"{v.SEED}/do/{i}", f"do{i}", po), pname)
    jobs, some, cfgs = [], {}, {}
    r = v.rng("c09")
    for k, name in enumerate(w.pkgs):
        jobs.append(w.job(name, id=f"{name}/docs", bodies=True, pretty_inline=True, model_of_pretty=True))
        if k % 2 == 0:
            jobs.append(w.job(name, id=f"{name}/plain", bodies=True, cfg={"generate_docs": False}))
        # parts of a package are documented as well, together with the modules around them
        subs = [m for m in w.pkgs[name]["order"] if m != name and not any(s.startswith("_") for s in m.split("."))]
        if subs:
            some[name] = r.sample(subs, min(len(subs), r.choice([1, 1, 2, 3])))
            if r.random() < 0.2:
                some[name].append(name)
            jobs.append(w.job(name, id=f"{name}/some", steps=[{"op": "name", "v": m} for m in some[name]], cfg=cfgs.setdefault(name, r.choice([None, None, {"traverse_submodules": False}]))))
    res = v.run_drv(jobs)
    for name in w.pkgs:
        x = res[f"{name}/docs"]
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x))
        if x["status"] != "ok" or not x["syntax"]:
            rep.violation(f"{name}: no bindings: {str(x)[:400]}", w.detail(name))
            continue
        diff, n, exp, act = world.compare(w.pkgs[name], x["model"], ["docs"])
        rep.count("items whose documentation was compared", n)
        bad = diff["docs"]
        # an item that is missing cannot be documented
        for kind, where, mod, e, a in oracle.pairs(exp, act):
            if e.doc:
                rep.case(f"{name}/{kind}/{where}")
                rep.count(f"documented items: {kind}")
        lost = lost_docs(exp, act)
        bad += lost
        d1 = docs_of(x["model"], [])
        if x.get("pretty_error"):
            bad.append(f"the formatted bindings cannot be read: {x['pretty_error']}")
        else:
            d2 = docs_of(x["pretty_model"], [])
            rep.count("doc comments read back", len(d2))
            if d1 != d2:
                k = next((i for i, (p, q) in enumerate(zip(d1, d2)) if p != q), min(len(d1), len(d2)))
                bad.append(f"formatted documentation differs: {d2[k:k + 1]} instead of {d1[k:k + 1]}")
            if skeleton(x["pretty_model"]) != skeleton(x["model"]):
                bad.append("documentation changes the code when it is formatted")
        y = res.get(f"{name}/plain")
        if y is not None and (y["status"] != "ok" or strip(y["model"]) != strip(x["model"])):
            bad.append("the code depends on the documentation")
        z = res.get(f"{name}/some")
        if z is not None:
            if z["status"] != "ok" or not z["syntax"]:
                bad.append(f"{some[name]}: no bindings: {str(z)[:300]}")
            else:
                diff, n, exp, act = world.compare(w.pkgs[name], z["model"], ["docs"], some[name], cfgs[name])
                rep.count("items of requested submodules whose documentation was compared", n)
                rep.case(f"{name}/{some[name]}/{cfgs[name]}")
                bad += [f"{some[name]} ({cfgs[name]}): {b}" for b in diff["docs"] + lost_docs(exp, act)]
        rep.sample(w.profile[name], [(p[-1], t) for p, t in d1[:4]], 1)
        for b in bad[:3]:
            rep.violation(f"{name}: {b}", w.detail(name))
    realmods.run(rep, ["docs"])


def lost_docs(exp, act, where=""):
    out = []
    for n, f in exp.fns.items():
        if f.doc and n not in act.fns:
            out.append(f"{where}::{n} and its documentation are missing")
    for n, s in exp.structs.items():
        t = act.structs.get(n)
        if t is None:
            if s.doc:
                out.append(f"{where}::{n} and its documentation are missing")
            continue
        for d in ("assoc", "trait"):
            for k, f in getattr(s, d).items():
                if f.doc and k not in getattr(t, d):
                    out.append(f"{where}::{n}::{k} and its documentation are missing")
    for n, m in exp.mods.items():
        if n in act.mods:
            out += lost_docs(m, act.mods[n], f"{where}::{n}")
        elif m.doc:
            out.append(f"{where}::{n} and its documentation are missing")
    return out


v.main("C09", check)
