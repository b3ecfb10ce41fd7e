import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import mirror
import realmods
import vcommon as v


def check(rep):
    rep.rule = (
        "the real bindings of seeded random packages are compiled; every constructor, method, class method, static method and callable is"
        " exercised with random arguments, planned outcomes, and overriding subclasses and instances, while the Python side records"
        " receiver and arguments; modules of unusual declarations at unusual places are compared with direct calls; a case is a distinct generated method"
    )
    v.build_drv()
    n = 240 if v.THOROUGH else 80
    sems = ["new", "inst", "class", "static", "call"]
    execute.run(rep, "ca", n, sems, ["default", "classes", "classes", "weird", "exports", "confusing"], dict(ann=0.4), rounds=18 if v.THOROUGH else 6)
    execute.run(rep, "cb", n // 2, sems, ["classes"], dict(weird_names=1.0, ann=0.3, inherit=0.9, mods=2, params=5), rounds=6)
    mirror.run(rep, {"assoc", "trait"})
    realmods.run(rep, ["member params"])


v.main("C06", check)
