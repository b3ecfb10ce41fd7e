import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import layouts
import oracle
import realmods
import vcommon as v
import world


def check(rep):
    rep.rule = (
        "seeded random packages (9 profiles) whose public structure is known by construction; every item of the real bindings is compared"
        " with the expected item tree; a case is non-trivial and distinct if its expected tree has a distinct set of >= 3 items;"
        " packages that the import system finds in unusual ways (several directories, archives, byte code, links, replaced modules ...) are compared by names"
    )
    v.build_drv()
    w = world.World("st", 1600 if v.THOROUGH else 360)
    res = w.generate(rep)
    for name, r in res.items():
        diff, n, exp, act = world.compare(w.pkgs[name], r["model"], ["odd", "structure"])
        rep.case(sorted(repr(sorted(m.names())) for m in _walk(exp)) if n > 3 else None)
        rep.count("items compared", n)
        rep.count("modules compared", sum(1 for _ in _walk(exp)) - 1)
        for m in _walk(exp):
            rep.count("functions and accessors", len(m.fns))
            rep.count("classes", len(m.structs))
            rep.count("class members", sum(len(s.assoc) + len(s.trait) for s in m.structs.values()))
        rep.sample(w.profile[name], {"package": name, "modules": [m.full for m in _walk(exp)], "items": n}, 1)
        for x in (diff["odd"] + diff["structure"])[:3]:
            rep.violation(f"{name}: {x}", w.detail(name))
    located(rep)
    realmods.run(rep, ["names"])


def located(rep):
    """Packages that are found in unusual ways."""
    root = os.path.join(v.workdir(), "py-layouts")
    cases = {}
    for i in range(990 if v.THOROUGH else 165):
        s = layouts.scenario(v.SEED, i, root)
        cases[s["id"]] = s
    res = v.run_drv([{"id": n, "sys_path": s["sys_path"], "cfg": s["cfg"], "steps": [{"op": "name", "v": n}]} for n, s in cases.items()])
    for n, s in cases.items():
        x = res[n]
        detail = {k: s[k] for k in ("family", "files", "cfg", "sys_path")}
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:1000])
        if x["status"] != "ok" or not x.get("syntax"):
            rep.violation(f"{n} ({s['family']}): no bindings: {str(x)[:400]}", detail)
            continue
        diff, k = layouts.compare(s["want"], oracle.shape(x["model"]))
        rep.case(("layout", sorted((f, sorted(w["fns"]), sorted(w["structs"])) for f, w in s["want"].items())))
        rep.count("packages: " + s["family"])
        rep.count("names of unusually located packages compared", k)
        rep.sample("layout " + s["family"], {"modules": sorted(s["want"]), "files": sorted(s["files"])}, 1)
        for d in diff[:3]:
            rep.violation(f"{n} ({s['family']}): {d}", detail)


def _walk(n):
    yield n
    for m in n.mods.values():
        yield from _walk(m)


v.main("C03", check)
