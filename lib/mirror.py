"""Modules made of unusual declarations: whatever a binding does must be what Python does for the same object.

The oracle is a direct call in the same interpreter, whose arguments follow from `inspect.signature`; nothing is known about how the bindings were generated."""
import itertools
import json
import os

import execute
import oracle
import rustgen
import vcommon as v

# parameters without the receiver
SIGNATURES = ["", "a", "a, b", "*args", "a, *args", "**kw", "a, **kw", "*args, **kw", "a, /", "a, /, b", "a, /, b, *args, k, **kw", "*, k", "a, *, k", "*, k, j", "*args, k", "a=1", "a, b=2", "a, b=None, *args",
              "a, *, k=3", "*, k=3, **kw", "a, /, b=2, *c, d, e=5, **f", "_a", "a, _b", "args", "kwargs", "args, kwargs", "*a, **k", "a, args, *rest", "a: object", "*args: object, **kw: object", "*args: 'Any'", "py", "self_", "cls", "result"]
# how a method names its receiver; "" is swallowed by a variadic parameter
RECEIVERS = ["self", "this", "_self", "s", "me, /", ""]

HEAD = "import functools as _ft\ndef _r(tag, d):\n    return (tag, sorted((k, id(x) if isinstance(x, type) or hasattr(x, '_mirror') else [id(y) if isinstance(y, type) or hasattr(y, '_mirror') else y for y in x] if type(x) in (tuple, list) else x) for k, x in d.items() if k not in ('__class__', '_w')))\n"


def join(recv, sig):
    """The parameters of a method; None if there is no such declaration."""
    if recv == "":
        return sig if sig.startswith("*") and not sig.startswith(("*,", "**")) else None
    if recv.endswith("/"):
        if "/" in sig:
            return None
        return f"{recv}, {sig}" if sig else recv
    first = recv.split(":")[0]
    if first in [p.strip("* ").split("=")[0].split(":")[0] for p in sig.split(",")]:
        return None
    return f"{recv}, {sig}" if sig else recv


def members(indent, tag, sigs, recvs, kinds, r):
    out, n = [], 0
    for k, sig in enumerate(sigs):
        for kind in kinds:
            if kind == "static":
                out.append(f"@staticmethod\ndef st{k}({sig}): return _r('{tag}st{k}', locals())")
            elif kind == "class":
                p = join(r.choice(["cls", "klass", "c", ""]), sig)
                if p is not None:
                    out.append(f"@classmethod\ndef cm{k}({p}): return _r('{tag}cm{k}', locals())")
            elif kind == "inst":
                for j, x in enumerate(recvs):
                    p = join(x, sig)
                    if p is not None:
                        out.append(f"def m{k}_{j}({p}): return _r('{tag}m{k}_{j}', locals())")
            elif kind == "wrapped":
                p = join("self", sig)
                if p is not None:
                    out.append(f"@_deco\ndef w{k}({p}): return _r('{tag}w{k}', locals())")
            elif kind == "lambda":
                p = join("self", sig)
                if p is not None and ":" not in p:
                    out.append(f"l{k} = lambda {p}: _r('{tag}l{k}', locals())")
    return "".join("\n".join(" " * indent + y for y in x.split("\n")) + "\n" for x in out)


DECO = "def _deco(f):\n    @_ft.wraps(f)\n    def _w(*a, **k): return f(*a, **k)\n    return _w\n"


def module(r, tag, sigs):
    """A module with classes and functions."""
    kinds = ["static", "class", "inst", "wrapped", "lambda"]
    s = HEAD + DECO
    s += members(0, tag, sigs, [], [], r)
    for k, sig in enumerate(sigs):
        s += f"def f{k}({sig}): return _r('{tag}f{k}', locals())\n"
        if k % 3 == 0:
            s += f"@_deco\ndef fw{k}({sig}): return _r('{tag}fw{k}', locals())\n"
    s += "class Base:\n    _mirror = 1\n    def __init__(self): pass\n" + members(4, tag + "Base", sigs[::2], RECEIVERS, kinds, r)
    over = sigs[1::2] + sigs[:1]
    s += "class Child(Base):\n    def __init__(self): pass\n" + members(4, tag + "Child", over, RECEIVERS[:2] + [""], kinds, r)
    s += "class Leaf(Child): pass\n"
    for k, sig in enumerate(sigs):
        p = join(r.choice(RECEIVERS), sig)
        if p is None or ":" in sig:
            p = join("self", sig)
        s += f"class K{k}:\n    _mirror = 1\n    def __init__({p}):\n        (self if 'self' in locals() else list(locals().values())[0] if {not p.startswith('*')!r} else list(locals().values())[0][0]).got = _r('{tag}K{k}', locals())\n" if p else ""
        q = join(r.choice(RECEIVERS), sig) or join("self", sig)
        if q:
            s += f"class Z{k}:\n    _mirror = 1\n    def __init__(self): pass\n    def __call__({q}): return _r('{tag}Z{k}', locals())\n"
    # members that are put into the class afterwards
    s += "class Late:\n    _mirror = 1\n    def __init__(self): pass\n"
    for k, sig in enumerate(sigs[:5]):
        p = join("self", sig)
        if p is None:
            continue
        s += f"def _late{k}({p}): return _r('{tag}late{k}', locals())\n_late{k}.__name__ = 'late{k}'\n_late{k}.__qualname__ = 'Late.late{k}'\nLate.late{k} = _late{k}\n"
        s += f"def _slate{k}({sig}): return _r('{tag}slate{k}', locals())\nLate.slate{k} = staticmethod(_slate{k})\n"
    return s


def layouts(r):
    """[(requests, {file: text})]: modules at unusual places."""
    out = []
    n = 14 if v.THOROUGH else 7
    for i in range(n):
        sigs = r.sample(SIGNATURES, 9)
        out.append(([f"mir{i}"], {f"mir{i}.py": module(r, f"mir{i}:", sigs)}))
    # every signature once, whatever is drawn
    for i in range(0, len(SIGNATURES), 9):
        out.append(([f"mia{i}"], {f"mia{i}.py": module(r, f"mia{i}:", SIGNATURES[i:i + 9])}))
    # a package whose attributes hide the submodules that they come from (directly or not)
    for i in range(3):
        root, sigs = f"mio{i}", r.sample(SIGNATURES, 5)
        files = {f"{root}/__init__.py": ""}
        for n in ["Base", "Child", "Leaf", "Late"] + [f"f{k}" for k in range(5)]:
            text = module(r, f"{root}:{n}:", sigs)
            where = r.choice(["plain", "package", "deep"]) if i else "deep"
            if where == "plain":
                files[f"{root}/{n}.py"] = text
                m = n
            elif where == "package":
                files[f"{root}/{n}/__init__.py"] = text
                m = n
            else:
                m = f"{n}.impl"
                files[f"{root}/{n}/__init__.py"] = r.choice([f"from .impl import {n}\n", "", "from . import impl\n"])
                files[f"{root}/{n}/impl.py"] = text
            files[f"{root}/__init__.py"] += f"from .{r.choice([m, n]) if 'import ' + n in files.get(f'{root}/{n}/__init__.py', '') else m} import {n}\n"
        out.append(([root], files))
    hide = ["{0} = 3", "{0} = None", "class {0}: pass", "def {0}(): return 1", "del {0}", "{0} = 'x'\n{0}2 = 5", "import json as {0}", "from types import SimpleNamespace as _S\n{0} = _S(C=5, f0=7, Base=object)",
            "class {0}:\n    class Base: pass\n    f0 = 5", "from . import {0} as _other\n{0} = getattr(_other, 'Base', 3)", "{0} = property(lambda s: 1)"]
    for i, h in enumerate(hide):
        for depth in (1, 2, 3):
            root = f"mih{i}d{depth}"
            segs = [root, "mid", "low", "end"][: depth + 1]
            files = {}
            hidden = r.randrange(1, depth + 1) if depth > 1 and r.random() < 0.5 else depth
            for d in range(depth):
                p = "/".join(segs[: d + 1])
                files[f"{p}/__init__.py"] = f"from . import {segs[d + 1]}\n" + (h.format(segs[d + 1]) if d + 1 == hidden else "") + "\n"
            files["/".join(segs) + ".py"] = module(r, f"{root}:", r.sample(SIGNATURES, 3))
            out.append(([".".join(segs)], files))
    return out


SCRIPT = r'''
import inspect, json, sys, importlib
conf = json.load(open(_vargs[0]))
sys.path.insert(0, conf["root"])
bad, n, seen = [], 0, {}
def outcome(f):
    try: return ("ok", f())
    except BaseException as e: return ("raise", type(e), str(e))
def arguments(params, k):
    """(for the binding, positional, by keyword)"""
    b, a, kw = [], [], {}
    for i, p in enumerate(params):
        x = (i, f"v{k}")
        if p.kind is p.VAR_POSITIONAL:
            x = tuple(range(i, i + k)); a += x
        elif p.kind is p.VAR_KEYWORD:
            x = {f"extra{j}": (j, k) for j in range(k)}; kw.update(x)
        elif p.kind is p.KEYWORD_ONLY: kw[p.name] = x
        else: a.append(x)
        b.append(x)
    return tuple(b), a, kw
def compare(label, e, target, recv, direct=None):
    global n
    try: params = list(inspect.signature(target).parameters.values())
    except BaseException as x:
        return
    if len(params) != e["np"]:
        bad.append(f"{label}: the binding takes {e['np']} arguments instead of {inspect.signature(target)}"); return
    for k in range(3):
        b, a, kw = arguments(params, k)
        got = outcome(lambda: _vcall(e["i"], tuple(recv) + b))
        want = outcome(lambda: target(*a, **kw))
        if direct: got, want = direct(got), direct(want)
        n += 1
        if got != want:
            bad.append(f"{label}{inspect.signature(target)}: with {a} {kw} the binding gives {got!r:.300} instead of {want!r:.300}"); return
def made(x):
    return (x[0], type(x[1]), {k: [y for y in z[1] if y[0] not in ("self", "this", "_self", "s", "me", "args", "a", "_w")] for k, z in vars(x[1]).items()}) if x[0] == "ok" else x
for e in conf["entries"]:
    mod = importlib.import_module(e["py"])
    label = f"{e['py']}: {e.get('struct', '')} {e['name']}"
    cls = vars(mod).get(e["struct"]) if "struct" in e else None
    if e["kind"] == "fn":
        f = vars(mod).get(e["name"])
        if inspect.isfunction(f) and e["name"].startswith("f") and ".f" not in e["py"]:
            seen[f"{e['py']}/{e['name']}"] = 1
            compare(label, e, f, ())
    elif e["kind"] == "assoc":
        if e["name"] == "new":
            seen[f"{e['py']}/{e['struct']}.__init__"] = 1
            compare(label, e, cls, (), made)
        else:
            seen[f"{e['py']}/{e['struct']}.{e['name']}"] = 1
            if inspect.isfunction(inspect.getattr_static(cls, e["name"])):
                bad.append(f"{label}{inspect.signature(getattr(cls, e['name']))}: the method of instances has no receiver")
            compare(label, e, getattr(cls, e["name"]), ())
    elif e["kind"] == "trait":
        if e["name"] != "call" and not inspect.isfunction(inspect.getattr_static(cls, e["name"], None)):
            bad.append(f"{label}: only instances have the method")
        else:
            for o in (cls, type("Sub", (cls,), {})):
                o = o.__new__(o)
                name = "__call__" if e["name"] == "call" else e["name"]
                seen[f"{e['py']}/{e['struct']}.{name}"] = 1
                t = o if name == "__call__" else getattr(o, name)
                compare(label, e, t, (o,))
want = {}
for m in conf["modules"]:
    mod = importlib.import_module(m)
    for k, x in vars(mod).items():
        if k.startswith("_") or not str(getattr(x, "__module__", None)).startswith(m): continue
        if inspect.isfunction(x): want[f"{m}/{k}"] = 1
        elif isinstance(x, type):
            for d in dir(x):
                y = inspect.getattr_static(x, d)
                if (not d.startswith("_") or d in ("__init__", "__call__")) and (inspect.isfunction(y) or isinstance(y, (staticmethod, classmethod))): want[f"{m}/{k}.{d}"] = 1
json.dump({"bad": bad, "n": n, "seen": len(seen), "missing": sorted(set(want) - set(seen))}, open(_vargs[1], "w"))
'''


def run(rep, kinds):
    """`kinds`: which entries are exercised (fn, assoc, trait)."""
    r = v.rng("mirror", *sorted(kinds))
    root = os.path.join(v.workdir(), "py-mirror")
    sets = layouts(r)
    jobs = []
    d = v.workdir()
    for i, (requests, files) in enumerate(sets):
        for f, t in files.items():
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as o:
                o.write(t)
        jobs.append({"id": f"mirror{i}", "sys_path": [root], "steps": [{"op": "name", "v": x} for x in requests], "pretty": f"{d}/mirror{i}.rs"})
    res = v.run_drv(jobs)
    groups = [list(range(len(sets)))[k::8] for k in range(8)]
    for out in v.pmap(_program, [(k, g, sets, res, root, kinds) for k, g in enumerate(groups)]):
        rep.count("calls compared with direct calls", out["n"])
        rep.count("unusual declarations", out["seen"])
        for what, det in out["viol"]:
            rep.violation(what, det)
        for c in out["cases"]:
            rep.case(c)


def _program(job):
    k, group, sets, res, root, kinds = job
    d = v.workdir()
    out = {"viol": [], "n": 0, "seen": 0, "cases": []}
    live = []
    for i in group:
        x = res[f"mirror{i}"]
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:600])
        if x["status"] != "ok" or not x.get("syntax"):
            out["viol"].append((f"{sets[i][0]}: no bindings: {str(x)[:300]}", {"files": sets[i][1]}))
        else:
            live.append(i)
    while live:
        prog = rustgen.Program()
        entries = []
        for i in live:
            sh = oracle.shape(res[f"mirror{i}"]["model"])
            a = len(prog.entries)
            prog.add_gen(f"{d}/mirror{i}.rs", sh, lambda e: e["kind"] in kinds and not (e["kind"] == "fn" and not e["name"].startswith("f")))
            for e in prog.entries[a:]:
                e["py"] = ".".join(e["mod"])
                entries.append(e)
        tag = f"mirrorp{k}"
        ok, msg, exe = prog.build(tag)
        if ok:
            break
        bad = [i for i in live if f"/mirror{i}.rs" in msg] or live
        for i in bad:
            out["viol"].append((f"{sets[i][0]}: the bindings cannot be used: {[x for x in msg.splitlines() if 'error' in x][:3]}"[:600], {"files": sets[i][1], "rustc": msg[:3000]}))
        live = [i for i in live if i not in bad]
    if not live:
        return out
    cf, of = f"{d}/{tag}.json", f"{d}/{tag}.out"
    with open(cf, "w") as f:
        json.dump({"root": root, "entries": entries, "modules": [m for i in live for m in sets[i][0]]}, f)
    p = execute.run_exe(exe, SCRIPT, [cf, of])
    os.unlink(exe)
    if not os.path.exists(of):
        out["viol"].append((f"{[sets[i][0] for i in live]}: using the bindings failed: {p.stderr[-500:]}", {"stderr": p.stderr[-3000:]}))
        return out
    o = json.load(open(of))
    out["n"], out["seen"] = o["n"], o["seen"]
    files = {m: sets[i][1] for i in live for m in sets[i][0]}
    for b in o["bad"]:
        out["viol"].append((b, {"files": files.get(b.split(":")[0])}))
    for m in o["missing"]:
        fn = "." not in m.split("/")[1]
        if ("fn" in kinds) == fn:
            out["viol"].append((f"{m} has no binding", {"files": files.get(m.split("/")[0])}))
    out["cases"] = [f"mirror {e['py']} {e.get('struct')} {e['name']}" for e in entries]
    return out
