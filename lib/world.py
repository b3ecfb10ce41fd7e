"""Random packages, their real bindings and their expected bindings."""
import os

import oracle
import pygen
import vcommon as v

# Profiles of generated packages that stress different parts
PROFILES = [
    ("default", {}),
    ("deep", dict(mods=9, depth=6, items=(1, 3), private_mods=0.2)),
    ("repeats", dict(mods=9, depth=5, items=(1, 4), same_mods=0.85, private_mods=0, ann=0.8, reexports=0.5, w={"fn": 4, "cls": 3, "var": 1, "alias": 0.5, "import": 5}, inherit=0.6)),
    ("wide", dict(mods=2, depth=1, items=(10, 20), weird_names=0.5)),
    ("weird", dict(weird_names=1.0, unutterable=0.3, private=0.5)),
    ("classes", dict(mods=3, items=(4, 7), w={"fn": 1, "cls": 6, "var": 0.5}, inherit=0.7, methods=7, props=3, attrs=2)),
    ("exports", dict(mods=7, depth=4, w={"fn": 3, "cls": 3, "var": 1, "tv": 0.5, "alias": 1.5, "import": 6, "other": 0.5},
                     reexports=0.7, all=0.8, params=1, methods=1)),
    ("types", dict(mods=3, ann=1.0, ann_depth=3, items=(5, 9), w={"fn": 6, "cls": 3, "var": 1}, str_ann=0.25)),
    ("clashes", dict(mods=2, depth=2, clash=0.85, items=(5, 9), w={"fn": 5, "cls": 5, "var": 6}, methods=6, props=3, attrs=3, inherit=0.5, ann=0.2, params=2)),
    ("confusing", dict(mods=5, confuse=0.85, params=6, items=(3, 6), methods=5, reexports=0.6, ann=0.5, weird_names=0.0, inherit=0.5)),
    ("parallel", dict(mods=14, depth=3, parallel=True, items=(1, 2), ann=1.0, weird_names=0, w={"fn": 4, "cls": 4, "var": 1, "import": 2}, all=0.2)),
    ("params", dict(mods=2, params=9, ann=0.4, ann_depth=1, w={"fn": 6, "cls": 2})),
]


class World:
    """A set of packages in one directory together with their generated bindings."""

    def __init__(self, tag, n, profiles=None, opts=None, root=None):
        self.root = root or os.path.join(v.workdir(), f"py-{tag}")
        pygen.write_recorder(self.root)
        self.pkgs = {}
        self.profile = {}
        profs = [p for p in PROFILES if profiles is None or p[0] in profiles]
        for i in range(n):
            pname, po = profs[i % len(profs)]
            name = f"{tag}{i}"
            self.add(pygen.gen_package(f"{v.SEED}/{tag}/{i}", name, {**po, **(opts or {})}), pname)

    def add(self, pkg, profile="fixed"):
        pygen.write_package(pkg, self.root)
        self.pkgs[pkg["name"]] = pkg
        self.profile[pkg["name"]] = profile

    def job(self, name, id=None, **kw):
        return {"id": id or name, "sys_path": [self.root], "steps": [{"op": "name", "v": name}], **kw}

    def generate(self, rep=None, **kw):
        """Default bindings of all packages: {name: result}. Failures are reported as violations."""
        res = v.run_drv([self.job(n, **{k: (x(n) if callable(x) else x) for k, x in kw.items()}) for n in self.pkgs])
        for n, r in list(res.items()):
            if r["status"] != "ok" or not r.get("syntax"):
                if r["status"] in ("pre_error", "drv_panic"):
                    raise v.Infra(f"driver failed: {r}")
                if rep is not None:
                    rep.violation(f"no bindings for a well-formed package: {str(r)[:600]}", self.detail(n))
                del res[n]
        return res

    def detail(self, name):
        """Everything that is needed to replay a case."""
        pkg = self.pkgs[name]
        return {"package": name, "profile": self.profile[name], "sources": {f: pygen.emit_module(pkg, f) for f in pkg["order"]}}


def compare(pkg, model, slices, requests=None, cfg=None):
    """Differences between expected and real bindings in the given slices: ({slice: [text]}, items compared)."""
    act = oracle.shape(model)
    exp = oracle.Node("")
    exp.mods = oracle.Oracle(pkg, requests, cfg).tree()
    out = {}
    n = 0
    for s in slices:
        o = out[s] = []
        if s == "odd":
            o += act.odd
        elif s == "structure":
            oracle.diff_structure(exp, act, o)
            n += oracle.count_items(exp)
        elif s == "types":
            n += oracle.diff_types(exp, act, act, o)
        elif s == "docs":
            n += oracle.diff_docs(exp, act, o)
        elif s == "uses":
            n += oracle.diff_uses(exp, act, act, o)
    return out, n, exp, act
