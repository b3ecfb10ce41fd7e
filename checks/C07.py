import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import grids
import vcommon as v
import world


def check(rep):
    rep.rule = (
        "types: every parameter, return and property type of the real bindings of random packages is compared with the documented mapping;"
        " values: these bindings are compiled, and conforming values (boundary values included) are passed through them in both directions;"
        " a case is a distinct item with annotated types, or a distinct generated function or accessor that was exercised"
    )
    v.build_drv()
    sems = ["fn", "new", "inst", "class", "static", "call", "vget", "vset", "pget", "pset"]
    big = dict(ann=1.0, ann_depth=3, str_ann=0.2, doc=0.0)
    w = world.World("ty", 1200 if v.THOROUGH else 240, ["types", "params", "classes", "default", "deep", "repeats"], dict(doc=0.0))
    grid = world.World("gr", 0)
    for k, pkg in enumerate(grids.packages()):
        grid.add(pkg)
    deep = world.World("ne", 0)
    for pkg in grids.nested():
        deep.add(pkg)
    own = world.World("de", 0)
    for pkg in grids.derived():
        own.add(pkg)
    for world_ in (w, grid, own, deep):
        for name, res in world_.generate(rep).items():
            diff, n, exp, act = world.compare(world_.pkgs[name], res["model"], ["types"])
            rep.count("types compared", n)
            if world_ is deep:
                rep.count("nested generics compared", n)
                rep.case(("nested", name))
            for x in diff["types"][:3]:
                rep.violation(f"{name}: {x}", world_.detail(name))
    execute.run(rep, "va", 160 if v.THOROUGH else 48, sems, ["types"], big, rounds=30 if v.THOROUGH else 9)
    execute.run_world(rep, own, ["fn", "inst", "class", "static", "pget", "pset"], rounds=12 if v.THOROUGH else 4)
    execute.run_world(rep, grid, sems, rounds=40 if v.THOROUGH else 10)


v.main("C07", check)
