import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import oracle
import realmods
import vcommon as v
import world


def check(rep):
    rep.rule = (
        "the real bindings of seeded random packages are compiled; every getter and setter of a variable, class attribute or property is"
        " driven through histories of writes from Rust and from Python and of raising accessors, while all other attributes are"
        " snapshotted; a case is a distinct generated accessor"
    )
    v.build_drv()
    n = 240 if v.THOROUGH else 80
    sems = ["vget", "vset", "pget", "pset"]
    execute.run(rep, "pa", n, sems, ["default", "classes", "weird", "wide", "confusing"], dict(props=3, attrs=3), rounds=18 if v.THOROUGH else 6)
    execute.run(rep, "pb", n // 2, sems, ["wide"], dict(w={"fn": 1, "cls": 2, "var": 6}, weird_names=1.0, ann=0.8, props=4, methods=1), rounds=6)
    existence(rep)
    realmods.run(rep, ["accessors"])


def existence(rep):
    """Which getters and setters there are."""
    w = world.World("px", 800 if v.THOROUGH else 160, opts=dict(props=3))
    for name, r in w.generate(rep).items():
        _, _, exp, act = world.compare(w.pkgs[name], r["model"], [])
        bad = []

        def members(where, e, a):
            want = {n for n, f in e.items() if f.sem and f.sem[0] in ("vget", "vset", "pget", "pset")}
            rep.count("getters and setters that have to exist", len(want))
            bad.extend(f"{where}::{n} does not exist" for n in want - a.keys())
            bad.extend(f"{where}::{n} exists although nothing can be set by it" for n in a.keys() - e.keys() if n.startswith(("set_", "r#set_")))

        def walk(where, e, a):
            members(where, e.fns, a.fns)
            for n in e.structs.keys() & a.structs.keys():
                members(f"{where}::{n}", e.structs[n].trait, a.structs[n].trait)
            for n in e.mods.keys() & a.mods.keys():
                walk(f"{where}::{n}", e.mods[n], a.mods[n])

        walk("", exp, act)
        rep.case(("accessors", name))
        for b in bad[:3]:
            rep.violation(f"{name}: {b}", w.detail(name))


v.main("C08", check)
