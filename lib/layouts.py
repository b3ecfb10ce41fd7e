"""Packages whose modules are found in unusual ways, with the names of all items of every module.

A scenario is {"files": {relative path: source | bytes}, "job": fields of the job, "want": {module: {"fns", "structs", "mods", "uses"}}}.
Modules that are not listed in `want` must not exist (apart from those that `mods` of their parents imply)."""
import io
import os
import py_compile
import random
import zipfile

import pygen
from rustnames import fn_name, rs, struct_name

FAILURES = ["raise ImportError('no')", "def broken(:", "raise SystemExit(1)", "import sys; sys.exit('x')", "raise KeyboardInterrupt", "1 / 0", "import no_such_module_at_all",
            "class E(BaseException): pass\nraise E", "raise StopIteration", "raise Exception(None)"]


class Tree:
    """Random tree of modules whose items are functions and classes."""

    def __init__(self, r, name):
        self.r, self.name = r, name
        self.mods = {}
        self.counter = 0

    def add(self, full, pkg, extra="", fns=(), structs=(), uses=()):
        r = self.r
        nm = pygen.Names(r, pygen.Opts(weird_names=0.3))
        f = [nm.fn() for _ in range(r.randint(1, 3))]
        c = [r.choice(pygen.CWORDS)] if r.random() < 0.6 else []
        src = extra + "".join(f"def {n}(a, b=1): return {self.tick()}\n" for n in f) + "".join(f"class {n}:\n    def m(self, q): return {self.tick()}\n" for n in c)
        self.mods[full] = {"src": src, "pkg": pkg, "fns": {fn_name(n) for n in f} | set(fns), "structs": {struct_name(n) for n in c} | set(structs), "mods": set(), "uses": set(uses)}
        if "." in full:
            parent, _, last = full.rpartition(".")
            if parent in self.mods:
                self.mods[parent]["mods"].add(last)
        return full

    def tick(self):
        self.counter += 1
        return self.counter

    def want(self):
        return {f: {k: m[k] for k in ("fns", "structs", "mods", "uses")} for f, m in self.mods.items()}

    def file(self, full, root=""):
        p = full.replace(".", "/")
        return os.path.join(root, p + "/__init__.py" if self.mods[full]["pkg"] else p + ".py")


def names(r, n):
    return r.sample(pygen.WORDS, n)


def subtree(t, r, parent, depth=1):
    """Modules and packages below a package."""
    out = []
    for n in names(r, r.randint(1, 3)) + ["typing"] * (r.random() < 0.15):
        pkg = depth > 0 and r.random() < 0.4
        f = t.add(f"{parent}.{n}", pkg)
        out.append(f)
        if pkg:
            out += subtree(t, r, f, depth - 1)
    return out


def regular(t, r, name):
    t.add(name, True)
    subtree(t, r, name, 2)
    return {"files": {t.file(f): t.mods[f]["src"] for f in t.mods}}


def namespace(t, r, name):
    """A package without __init__.py in two or three directories of sys.path."""
    t.mods[name] = {"src": "", "pkg": True, "fns": set(), "structs": set(), "mods": set(), "uses": set()}
    n = r.randint(2, 3)
    files = {}
    for k, s in enumerate(names(r, r.randint(n, 5))):
        f = t.add(f"{name}.{s}", r.random() < 0.4)
        for x in [f] + (subtree(t, r, f) if t.mods[f]["pkg"] else []):
            files[t.file(x, f"{name}-r{k % n}")] = t.mods[x]["src"]
    return {"files": files, "paths": [f"{name}-r{k}" for k in range(n)]}


def extended(t, r, name):
    """A regular package whose __path__ names further directories."""
    how = r.choice(["pkgutil", "append", "insert", "replace", "tuple"])
    code = {"pkgutil": "import pkgutil as _pkgutil\n__path__ = _pkgutil.extend_path(__path__, __name__)\n",
            "append": f"import os as _os\n__path__.append(_os.path.join(_os.path.dirname(_os.path.dirname(__file__)), '{name}-x', '{name}'))\n",
            "insert": f"import os as _os\n__path__.insert(0, _os.path.join(_os.path.dirname(_os.path.dirname(__file__)), '{name}-x', '{name}'))\n",
            "replace": f"import os as _os\n__path__ = [_os.path.join(_os.path.dirname(_os.path.dirname(__file__)), '{name}-x', '{name}')]\n",
            "tuple": f"import os as _os\n__path__ = (*__path__, _os.path.join(_os.path.dirname(_os.path.dirname(__file__)), '{name}-x', '{name}'), '/nonexistent/dir')\n"}[how]
    t.add(name, True, code)
    files = {t.file(name): t.mods[name]["src"]}
    picked = names(r, 4)
    for k, s in enumerate(picked):
        if how == "replace" and k % 2 == 0:
            # hidden by the new path
            files[f"{name}/{s}.py"] = "def hidden(): ...\n"
            continue
        f = t.add(f"{name}.{s}", r.random() < 0.4)
        for x in [f] + (subtree(t, r, f) if t.mods[f]["pkg"] else []):
            files[t.file(x, f"{name}-x" if k % 2 else "")] = t.mods[x]["src"]
    return {"files": files, "paths": [f"{name}-x"] if how == "pkgutil" else []}


def zipped(t, r, name):
    t.add(name, True)
    subtree(t, r, name, 2)
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for f in t.mods:
            z.writestr(t.file(f), t.mods[f]["src"])
    return {"files": {f"{name}.zip": b.getvalue()}, "paths": [f"{name}.zip"]}


def sourceless(t, r, name):
    """Some modules exist as byte code only."""
    t.add(name, True)
    subtree(t, r, name, 1)
    return {"files": {t.file(f) + ("c" if r.random() < 0.5 else ""): t.mods[f]["src"] for f in t.mods}}


def links(t, r, name):
    """Packages and modules that are symbolic links to files elsewhere."""
    t.add(name, True)
    f = t.add(f"{name}.linked", True)
    subtree(t, r, f, 1)
    g = t.add(f"{name}.single", False)
    files = {t.file(x, "" if x == name else f"{name}-elsewhere"): t.mods[x]["src"] for x in t.mods}
    return {"files": files, "links": {f"{name}/linked": f"{name}-elsewhere/{name}/linked", f"{name}/single.py": f"{name}-elsewhere/{name}/single.py"}}


def failing(t, r, name):
    """Submodules that cannot be imported do not hide others."""
    t.add(name, True)
    subtree(t, r, name, 2)
    files = {t.file(f): t.mods[f]["src"] for f in t.mods}
    for f in [f for f in t.mods if t.mods[f]["pkg"]]:
        for k in range(r.randint(0, 3)):
            bad = f"{'aaa' if r.random() < .5 else 'zzz'}bad{k}"
            src = r.choice(FAILURES) + "\ndef unreachable(): ...\n"
            if r.random() < 0.3:
                # fails only below
                files[f"{f.replace('.', '/')}/{bad}/__init__.py"] = src
                files[f"{f.replace('.', '/')}/{bad}/below.py"] = "def unreachable(): ...\n"
            else:
                files[f"{f.replace('.', '/')}/{bad}.py"] = src
    return {"files": files}


def lazy(t, r, name):
    """Attributes are listed by __dir__ and made by __getattr__."""
    extra = [f"zz_lazy{k}" for k in range(r.randint(1, 3))]
    code = (f"_made = {{}}\ndef __dir__(): return sorted({{*globals(), *{extra!r}, 'zz_missing'}})\ndef __getattr__(n):\n    if n in {extra!r}:\n"
            "        def f(a, b): return n\n        f.__name__ = f.__qualname__ = n\n        return _made.setdefault(n, f)\n    raise AttributeError(n)\n")
    t.add(name, True, code, fns=extra)
    subtree(t, r, name, 1)
    return {"files": {t.file(f): t.mods[f]["src"] for f in t.mods}}


def replaced(t, r, name):
    """The module replaces itself in sys.modules, or changes its class."""
    if r.random() < 0.5:
        code = ("import sys as _sys, types as _types\nclass _M(_types.ModuleType):\n    pass\n_sys.modules[__name__].__class__ = _M\n")
    else:
        code = ("import sys as _sys, types as _types\n_m = _types.ModuleType(__name__, 'replacement')\n_m.__dict__.update(globals())\n"
                "_m.__dict__.pop('gone', None)\n")
    t.add(name, True, code)
    f = t.add(f"{name}.inner", False, code)
    for x in (name, f):
        if "_m = " in code:
            t.mods[x]["src"] = t.mods[x]["src"].replace(code, "def gone(): ...\n") + code + "_sys.modules[__name__] = _m\n"
    return {"files": {t.file(x): t.mods[x]["src"] for x in t.mods}}


def overwritten(t, r, name):
    """`from .x import x`: the attribute hides the submodule of the same name."""
    t.add(name, True)
    imports, files = "", {}
    subtree(t, r, name, 1)
    for k in range(r.randint(1, 3)):
        n = f"over{k}"
        kind = r.choice(["fn", "cls", "value", "typevar", "const"])
        body = {"fn": f"def {n}(a, b=2): return 1\n", "cls": f"class {n}:\n    def m(self, q): ...\n", "value": f"{n} = 5\n", "const": f"{n} = 'text'\n",
                "typevar": f"from typing import TypeVar\n{n} = TypeVar('{n}')\n"}[kind]
        files[f"{name}/{n}.py"] = body + "def hidden(): ...\n"
        imports += f"from .{n} import {n}\n"
        root = t.mods[name]
        if kind == "fn":
            root["fns"].add(n)
        elif kind == "cls":
            root["structs"].add(n)
        elif kind == "typevar":
            return None
        else:
            root["fns"] |= {n, f"set_{n}"}
            t.mods[f"{name}.{n}"] = {"src": None, "pkg": False, "fns": {"hidden", n, f"set_{n}"}, "structs": set(), "mods": set(), "uses": set()}
            root["mods"].add(n)
    t.mods[name]["src"] += imports
    files.update({t.file(x): m["src"] for x, m in t.mods.items() if m["src"] is not None})
    return {"files": files}


def covered(t, r, name):
    """Imports that have the name of a submodule but come from somewhere else (`import logging` next to `logging.py`)."""
    t.add(name, True)
    t.add(f"{name}.home", True)
    subtree(t, r, name, 1)
    root, home = t.mods[name], t.mods[f"{name}.home"]
    imports, files = "", {}
    names = r.sample(["logging", "json", "path", "thing", "Thing", "part", "over", "types", "deep", "Deep"], r.randint(2, 6))
    for n in names:
        if n in root["mods"] or n in home["mods"] or n in root["fns"] | root["structs"] | home["fns"] | home["structs"]:
            continue
        body = f"def in_{n}(a): ...\nclass In{n}: ...\n"
        if n in ("logging", "json", "types"):
            # (the submodule is as public as any other)
            imports += r.choice([f"import {n}\n", f"import string as {n}\n", f"from collections import OrderedDict as {n}\n", f"from textwrap import dedent as {n}\n"])
            root["mods"].add(n)
            t.mods[f"{name}.{n}"] = {"src": body, "pkg": False, "fns": {f"in_{n}"}, "structs": {f"In{n}"}, "mods": set(), "uses": set()}
        elif n in ("deep", "Deep"):
            # the submodule is a package, which has it from one of its modules
            cls = n == "Deep"
            files[f"{name}/{n}/__init__.py"] = f"from .impl import {n}\n"
            files[f"{name}/{n}/impl.py"] = f"class {n}:\n    def m(self): ...\n" if cls else f"def {n}(a): ...\n"
            root["structs" if cls else "fns"].add(n)
            imports += f"from .{n} import {n}\n"
        else:
            # the submodule is hidden by a reexport
            files[f"{name}/{n}.py"] = body
            cls = n[0].isupper()
            own = r.choice([n, f"{n}2"])
            home["src"] = (home["src"] or "") + (f"class {own}: ...\n" if cls else f"def {own}(a): ...\n")
            home["structs" if cls else "fns"].add(own)
            root["uses"].add(n)
            imports += f"from .home import {own} as {n}\n"
    t.mods[name]["src"] += imports
    files.update({t.file(x): m["src"] for x, m in t.mods.items() if m["src"] is not None})
    return {"files": files}


def prefixed(t, r, name):
    """With dependencies: packages whose names start with each other."""
    other = r.choice([f"{name}x", f"{name}_core", name + "2", "x" + name])
    t.add(other, True)
    subtree(t, r, other, 1)
    fn = next(iter(sorted(n for n in t.mods[other]["fns"] if not n.startswith("r#") and not n.startswith("f_"))), None)
    if fn is None:
        return None
    t.add(name, True, f"from {other} import {fn} as zz_used\n")
    subtree(t, r, name, 1)
    return {"files": {t.file(x): t.mods[x]["src"] for x in t.mods}, "cfg": {"generate_dependencies": True}, "deps": [other]}


FAMILIES = [regular, namespace, extended, zipped, sourceless, links, failing, lazy, replaced, overwritten, covered, prefixed]


def scenario(seed, i, root):
    """The i-th scenario, written below `root`: {"id", "family", "sys_path", "cfg", "want", "files", "deps"}."""
    fam = FAMILIES[i % len(FAMILIES)]
    for attempt in range(50):
        r = random.Random(f"layout/{seed}/{i}/{attempt}")
        name = f"ly{i}{r.choice(['', 'a', '_b'])}"
        t = Tree(r, name)
        s = fam(t, r, name)
        if s is not None:
            break
    else:
        raise AssertionError(fam)
    for f, src in s["files"].items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.endswith(".pyc"):
            tmp = p + ".src"
            with open(tmp, "w") as o:
                o.write(src)
            py_compile.compile(tmp, cfile=p, doraise=True)
            os.unlink(tmp)
        else:
            with open(p, "wb") as o:
                o.write(src if isinstance(src, bytes) else src.encode())
    for f, target in s.get("links", {}).items():
        os.symlink(os.path.join(root, target), os.path.join(root, f))
    return {"id": name, "family": fam.__name__, "sys_path": [root] + [os.path.join(root, p) for p in s.get("paths", [])], "cfg": s.get("cfg"), "want": t.want(),
            "files": {f: (x if isinstance(x, str) else f"{len(x)} bytes") for f, x in s["files"].items()}, "deps": s.get("deps", [])}


def compare(want, shape):
    """Differences between the expected names and the bindings, and the number of names compared."""
    out, n = [], 0
    tops = {f for f in want if "." not in f}
    have = {x: m for x, m in shape.mods.items()}
    if set(have) != {rs(x) or x for x in tops}:
        out.append(f"modules {sorted(have)} instead of {sorted(tops)}")
    seen = {}

    def walk(m, path):
        seen[".".join(path)] = m
        for k, x in m.mods.items():
            walk(x, path + [k[2:] if k.startswith("r#") else k])

    for k, m in have.items():
        walk(m, [k])
    for f, w in want.items():
        m = seen.get(f)
        if m is None:
            out.append(f"module {f} is missing")
            continue
        for kind, got in (("fns", m.fns), ("structs", m.structs), ("mods", m.mods), ("uses", m.uses)):
            exp = {rs(x) or x for x in w[kind]} if kind == "mods" else w[kind]
            n += len(exp)
            if set(got) != exp:
                out.append(f"{f}: {kind}: missing {sorted(exp - set(got))}, unexpected {sorted(set(got) - exp)}")
    for f in seen:
        if f not in want:
            out.append(f"module {f} is unexpected")
    return out, n
