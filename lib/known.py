"""Probes of the recorded findings: every check runs those of its property, each on one fixed input.

A probe reports its violation with the signature under which it is listed in /verif/known_findings.txt; if the
defect is gone, nothing is reported, and if the input fails in another way, the signature differs (and the check alarms)."""
import os

import vcommon as v


def _gen(jid, files, steps, **kw):
    root = os.path.join(v.workdir(), f"known-{jid}")
    for f, s in files.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as o:
            o.write(s)
    job = {"id": jid, "sys_path": [root], "steps": steps, **kw}
    x = v.run_drv([job])[jid]
    if x["status"] in ("pre_error", "drv_panic"):
        raise v.Infra(str(x))
    return x, root


def compiles(sig, files, codes, src=None, name=None):
    """The bindings of `files` fail to compile with (only) the given errors."""
    def probe(rep):
        n = name or f"zzk_{sig.replace('-', '_')}"
        out = os.path.join(v.workdir(), f"known-{sig}.rs")
        steps = [{"op": "str", "v": n, "src": src}] if src else [{"op": "name", "v": n}]
        x, _ = _gen(sig, {f.format(n=n): s for f, s in files.items()}, steps, pretty=out, model=False)
        detail = {"sources": files, "embedded": src}
        if x["status"] != "ok" or not x.get("syntax"):
            rep.violation(f"probe {sig}: no bindings: {str(x)[:300]}", detail, sig=f"{sig}-other")
            return
        v.canary()
        ok, msg = v.rustc(out)
        if ok is None:
            raise v.Infra(msg)
        if ok:
            return
        got = {w.split("[")[1].split("]")[0] for w in msg.split() if w.startswith("error[")}
        rep.violation(f"probe {sig}: {[ln for ln in msg.splitlines() if 'error' in ln][:4]}", detail, sig=sig if got <= set(codes) else f"{sig}-other")
    return probe


def model(sig, files, ok, bad):
    """`ok(model)` holds if the defect is gone, `bad(model)` if it is the recorded one."""
    def probe(rep):
        n = f"zzk_{sig.replace('-', '_')}"
        x, _ = _gen(sig, {f.format(n=n): s for f, s in files.items()}, [{"op": "name", "v": n}])
        detail = {"sources": files}
        if x["status"] != "ok" or not x.get("syntax"):
            rep.violation(f"probe {sig}: no bindings: {str(x)[:300]}", detail, sig=f"{sig}-other")
            return
        import oracle
        m = oracle.shape(x["model"]).mods[n]
        print(str({c: fns(m, c) for c in m.structs})) if os.environ.get("VERIF_DEBUG") else None
        if not ok(m):
            rep.violation(f"probe {sig}: bindings are not as expected", {**detail, "model": x["model"]}, sig=sig if bad(m) else f"{sig}-other")
    return probe


def fns(m, cls):
    """(associated functions, methods) of a class, each with the names of its parameters."""
    st = m.structs[cls]
    par = lambda d: {n: [p[0] if isinstance(p, list) else p["name"] for p in f["params"]] for n, f in d.items()}
    return par(st.assoc), par(st.trait)


PROBES = {
    "C02": [
        compiles("class-named-like-primitive", {"{n}.py": "class f64: ...\ndef f(a: float) -> float: ...\n"}, ["E0277", "E0308", "E0599", "E0412", "E0117", "E0369"]),
        compiles("class-and-its-methods-trait", {"{n}.py": "class X:\n    def m(self): ...\nclass XMethods:\n    def k(self): ...\n"},
                 ["E0428", "E0404", "E0574", "E0573", "E0407", "E0782", "E0119", "E0592", "E0034", "E0599", "E0277", "E0308", "E0046", "E0405", "E0191"]),
        compiles("class-named-like-submodule", {"{n}/__init__.py": "class sub: ...\n", "{n}/sub.py": "def f(): ...\n"}, ["E0428"]),
        compiles("sanitised-name-taken", {"{n}.py": "def crate(a): ...\ndef f_crate(b): ...\nclass K:\n    def super(self, x): ...\n    def f_super(self, y): ...\n"}, ["E0428", "E0592", "E0201", "E0046", "E0407", "E0034"]),
    ],
    "C03": [
        model("submodule-named-crate", {"{n}/__init__.py": "x = 1\n", "{n}/crate.py": "def g(q): ...\n"}, lambda m: any("g" in k.fns for k in m.mods.values()), lambda m: not m.mods),
        model("methods-of-enums", {"{n}.py": "import enum\nclass E(enum.Enum):\n    A = 1\n    def m(self, q): ...\n"},
              lambda m: "m" in fns(m, "E")[1], lambda m: "m" not in fns(m, "E")[0] and "A" in fns(m, "E")[1]),
        model("namespace-inside-package", {"{n}/__init__.py": "x = 1\n", "{n}/part/mod.py": "def g(q): ...\n"}, lambda m: any("g" in k.fns for k in m.mods.values()), lambda m: not m.mods),
    ],
    "C07": [
        model("string-annotation-names-own-class", {"{n}.py": "class Dict:\n    def m(self): ...\ndef f(a: 'Dict') -> 'Dict': ...\n"},
              lambda m: "PyDict" not in str(m.fns["f"]["ret"]).replace(" ", ""), lambda m: str(m.fns["f"]["ret"]).replace(" ", "").endswith("::pyo3::Bound<'py,::pyo3::types::PyDict>>")),
    ],
    "C13": [
        compiles("embedded-class-named-pyo3", {}, ["E0433", "E0223", "E0599"], src="class pyo3:\n    def m(self): ...\n"),
    ],
}


def run(prop, rep):
    for p in PROBES.get(prop, ()):
        p(rep)
        rep.count("probes of recorded findings")
