import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import mirror
import realmods
import vcommon as v


def check(rep):
    rep.rule = (
        "the real bindings of seeded random packages are compiled and every binding of a module-level function is called with random"
        " arguments and planned outcomes while the Python side records what it receives; modules of unusual declarations at unusual places are compared with direct calls; a case is a distinct generated function"
    )
    v.build_drv()
    n = 240 if v.THOROUGH else 80
    execute.run(rep, "fa", n, ["fn", "builtin"], ["default", "params", "deep", "weird", "exports", "repeats", "confusing", "parallel"], rounds=24 if v.THOROUGH else 7)
    execute.run(rep, "fb", n // 2, ["fn", "builtin"], ["params"], dict(params=9, mods=1, w={"fn": 8, "cls": 1}, items=(6, 10)), rounds=12)
    mirror.run(rep, {"fn"})
    realmods.run(rep, ["fn params"])


v.main("C05", check)
