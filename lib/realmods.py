"""Real Python modules: the standard library and the third-party packages that happen to be installed next to the tools of the sandbox.

Run as a program, it tells what the public parts of a module are, according to Python itself."""
import importlib
import inspect
import io
import json
import os
import pkgutil
import subprocess
import sys
import types

import oracle
from rustnames import BLOCKLIST, RESERVED, UNUTTERABLE, unraw

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
# (packages that take long or do something when they are imported are left out)
THIRD = """attr attrs asttokens anyio certifi charset_normalizer click dateutil deal execnet harfile hypothesis_graphql icontract idna iniconfig isort jsonschema jsonschema_rs jsonschema_specifications
lark linkify_it markdown_it markupsafe mccabe mdit_py_plugins mdurl more_itertools mypy_extensions packaging pathspec platformdirs pluggy pycparser pyrate_limiter referencing requests rich rpds
setproctitle six sortedcontainers stevedore toml tomli tomlkit tree_sitter trove_classifiers typing_extensions typing_inspect tzdata urllib3 vulture werkzeug wheel yaml cattr cattrs""".split()
HEAVY = "astroid bandit graphql libcst lsprotocol pygls setuptools hatchling flit_core xdist textual networkx mpmath scipy".split()
STD = """abc argparse array ast asyncio base64 bisect bz2 calendar cmath codecs collections colorsys concurrent configparser contextlib contextvars copy csv ctypes dataclasses datetime
decimal difflib dis email enum errno fileinput fnmatch fractions ftplib functools gc getopt getpass gettext glob gzip hashlib heapq hmac html http imaplib importlib inspect io ipaddress itertools
json keyword linecache locale logging lzma mailbox marshal math mimetypes mmap multiprocessing netrc numbers operator os pdb pickle pickletools pkgutil platform plistlib poplib pprint profile pstats
pyclbr queue quopri random re reprlib resource sched secrets select selectors shelve shlex shutil signal smtplib socket socketserver sqlite3 ssl stat statistics string stringprep struct subprocess symtable
sys sysconfig tarfile tempfile termios textwrap threading time timeit token tokenize tomllib trace traceback tracemalloc types unittest urllib uuid warnings wave weakref
webbrowser wsgiref xml xmlrpc zipapp zipfile zipimport zlib zoneinfo""".split()


def third():
    """Names of the third-party packages that exist here."""
    return [n for n in THIRD if os.path.exists(os.path.join(SITE, n)) or os.path.exists(os.path.join(SITE, n + ".py"))]


def heavy():
    return [n for n in HEAVY if os.path.exists(os.path.join(SITE, n))]


def allowed(name, module=""):
    segs = module.split(".")
    return not (name in RESERVED or name in BLOCKLIST or name.startswith("_") or name in UNUTTERABLE or any(s.startswith("_") for s in segs) or segs[0] in ("typing", "__future__"))


def home(x):
    try:
        return str(x.__module__)
    except Exception:
        return ""


def text(x):
    d = getattr(x, "__doc__", None)
    return d if isinstance(d, str) and d else None


def params(f, drop=False):
    """Names of the parameters; None if they are replaced because of a name that Rust reserves."""
    try:
        ps = list(inspect.signature(f).parameters.values())
    except (ValueError, TypeError, SyntaxError):
        return ["args", "kwargs"]
    if drop and ps and ps[0].kind in (ps[0].POSITIONAL_ONLY, ps[0].POSITIONAL_OR_KEYWORD):
        ps = ps[1:]
    ps = [p.name for p in ps]
    return None if "self" in ps else ps


def static(c, n):
    return next((k.__dict__[n] for k in c.__mro__ if n in k.__dict__), None)


def members(c):
    """{name: (kind, parameters, documentation)}"""
    out = {}
    try:
        names = dir(c)
    except Exception:
        return None
    for n in names:
        try:
            x = getattr(c, n)
        except Exception:
            continue
        if isinstance(x, type) or inspect.ismodule(x):
            continue  # nested classes have no bindings
        if n in ("__init__", "__call__") and inspect.isfunction(x):
            kind = "assoc" if n == "__init__" else "trait"
            bound = isinstance(static(c, n), (staticmethod, classmethod))
            out[n] = ("new" if n == "__init__" else "call", None if bound else params(x, True), text(x))
        if not allowed(n, home(x)) or type(x).__module__ in ("typing", "types") or type(type(x)) is not type:
            continue
        if inspect.isfunction(x):
            if static(c, n) is None:
                out[n] = ("any", None, None)
            elif isinstance(static(c, n), staticmethod):
                out[n] = ("assoc", params(x), text(x))
            else:
                # (methods without any parameter count as static)
                out[n] = ("trait" if params(x) != [] else "any", params(x, True), text(x))
        elif inspect.ismethod(x) or inspect.isbuiltin(x):
            out[n] = ("assoc", params(x), text(x))
        elif type(x) is property and x.fget is not None:
            out[n] = ("property", [], text(x))
            if x.fset is not None:
                out[n] = ("mutable property", [], text(x))
        else:
            out[n] = ("any", None, None)
    return out


def describe(m):
    full = m.__name__
    want = {"doc": text(m), "fns": {}, "structs": {}, "values": []}
    subs = []
    if hasattr(m, "__path__"):
        subs = sorted({x.name for x in pkgutil.iter_modules(m.__path__)})
    for n in dir(m):
        try:
            x = getattr(m, n)
        except Exception:
            continue
        if not allowed(n, home(x)) or n in subs:
            continue
        if inspect.ismodule(x):
            continue
        if isinstance(x, type):
            if x.__module__ == full:
                want["structs"][n] = [members(x), text(x)]
        elif inspect.isfunction(x):
            if x.__module__ == full:
                want["fns"][n] = [params(x), text(x)]
        elif inspect.ismethod(x):
            owner = sys.modules.get(home(x))
            if home(x) == full or getattr(owner, x.__name__, None) != x:
                want["fns"][n] = [params(x), text(x)]
        elif inspect.isbuiltin(x):
            want["fns"][n] = [params(x), text(x)]
        elif type(x) in (int, float, str, bytes, bool, tuple, list, dict, set, frozenset) or type(x).__module__ == full and type(type(x)) is type:
            want["values"].append(n)
    return want, [s for s in subs if allowed(s)]


def compare(want, mods, slices):
    """What differs from the bindings: ([text], number of comparisons); `mods` are the shapes of the bindings by their Python names.

    Slices: "names", "accessors", "fn params", "member params", "docs"."""
    bad = []
    n = 0

    def missing(x):
        if "names" in slices or "accessors" in slices and (x.startswith("value") or "etter" in x):
            bad.append(x)

    def found(where, f, ps, doc):
        nonlocal n
        if ("fn params" if where.startswith("function") else "member params") in slices and ps is not None:
            n += 1
            got = [p for p, _ in f["params"] if p not in ("self", "py")]
            if got != [f"p_{x}" for x in ps]:
                bad.append(f"{where}: parameters {got} instead of {ps}")
        if "docs" in slices:
            n += 1
            got = oracle.norm_doc("\n".join(f["docs"]) if f["docs"] else None)
            if got != oracle.norm_doc(doc):
                bad.append(f"{where}: documentation {got!r} instead of {doc!r}")

    for full, w in want.items():
        if w is None:
            continue
        node = mods.get(full)
        if node is None:
            if w["fns"] or w["structs"] or w["values"]:
                missing(f"module {full} is missing")
            continue
        if "docs" in slices:
            got = oracle.norm_doc("\n".join(node.docs) if node.docs else None)
            n += 1
            if got != oracle.norm_doc(w["doc"]):
                bad.append(f"module {full}: documentation {got!r} instead of {w['doc']!r}")
        fns = {unraw(x): f for x, f in node.fns.items()}
        for x, (ps, doc) in w["fns"].items():
            n += "names" in slices
            if x not in fns:
                missing(f"function {full}.{x} is missing")
            else:
                found(f"function {full}.{x}", fns[x], ps, doc)
        for x in w["values"]:
            n += "names" in slices
            if x not in fns and f"get_{x}" not in fns:
                missing(f"value {full}.{x} is missing")
            elif f"set_{x}" not in fns:
                missing(f"value {full}.{x}: no setter")
        for c, (ms, cdoc) in w["structs"].items():
            n += "names" in slices
            s = node.structs.get(c) or node.structs.get("r#" + c)
            if s is None:
                missing(f"class {full}.{c} is missing")
                continue
            if "docs" in slices:
                got = oracle.norm_doc("\n".join(s.docs) if s.docs else None)
                n += 1
                if got != oracle.norm_doc(cdoc):
                    bad.append(f"class {full}.{c}: documentation {got!r} instead of {cdoc!r}")
            assoc = {unraw(x): f for x, f in s.assoc.items()}
            trait = {unraw(x): f for x, f in s.trait.items()}
            methods = {x for x, (k, _, _) in (ms or {}).items() if k in ("assoc", "trait")}
            for x, (kind, ps, doc) in (ms or {}).items():
                n += "names" in slices
                where = f"member {full}.{c}.{x}"
                if kind in ("new", "call"):
                    i = ""
                    while f"{kind}{i}" in methods:
                        i = int(i or 0) + 1
                    x = f"{kind}{i}"
                place = {"assoc": assoc, "new": assoc, "trait": trait, "call": trait}.get(kind)
                if kind == "any":
                    if not {x, f"get_{x}"} & (set(assoc) | set(trait)):
                        missing(f"{where} is missing")
                elif "property" in kind:
                    f = trait.get(x if x in trait and not trait[x]["params"] else f"get_{x}")
                    if f is None:
                        missing(f"{where}: no getter")
                    elif doc:
                        found(where, f, None, doc)
                    if "mutable" in kind and f"set_{x}" not in (ms or {}) and f"set_{x}" not in trait:
                        missing(f"{where}: no setter")
                    if "accessors" in slices:
                        n += 1
                        if "mutable" not in kind and f"set_{x}" in trait and f"set_{x}" not in (ms or {}):
                            bad.append(f"{where} is read-only and has a setter")
                elif x not in place:
                    missing(f"{where} ({kind}) is missing")
                else:
                    found(where, place[x], ps, doc)
    return bad, n


def index(node, path=()):
    """The modules of a shape by their Python names."""
    out = {}
    for k, m in node.mods.items():
        p = (*path, unraw(k))
        out[".".join(p)] = m
        out.update(index(m, p))
    return out


def run(rep, slices, std=STD, tag=""):
    """Compares the bindings of all these modules with the modules, as Python itself describes them."""
    import vcommon as v

    names = [(n, "") for n in std] + [(n, SITE) for n in third() + (heavy() if v.THOROUGH else [])]

    def expect(x):
        n, site = x
        env = {**os.environ, "PYTHONPATH": site}
        p = subprocess.run([sys.executable, os.path.abspath(__file__), n], capture_output=True, text=True, env=env, timeout=240, cwd=v.workdir())
        if p.returncode or not p.stdout:
            raise v.Infra(f"{n} cannot be described: {p.stderr[-500:]}")
        return n, json.loads(p.stdout)

    want = dict(v.pmap(expect, names))
    res = v.run_drv([{"id": n, "sys_path": [s] if s else [], "steps": [{"op": "name", "v": n}]} for n, s in names], timeout=240)
    for n, site in names:
        x = res[n]
        detail = {"module": n, "sys_path": [site] if site else []}
        if want[n].get(n) is None:
            rep.count("real modules that cannot be imported here")
            continue
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:1000])
        if x["status"] != "ok" or not x.get("syntax"):
            rep.violation(f"real module {n}: no bindings: {str(x)[:400]}", detail)
            continue
        bad, k = compare(want[n], index(oracle.shape(x["model"], odd=[])), slices)
        rep.case(("real module", n) if k > 2 else None)
        rep.count("real modules (with their submodules)", sum(w is not None for w in want[n].values()))
        rep.count("comparisons with real modules", k)
        for b in bad[:3]:
            rep.violation(f"real module {n}: {b}", detail)
    rep.sample("real modules", [n for n, _ in names][::17], 1)


def main(names):
    out = sys.stdout
    sys.stdout = sys.stderr = io.StringIO()
    res = {}
    todo = list(names)
    while todo:
        n = todo.pop(0)
        try:
            m = importlib.import_module(n)
        except BaseException as e:
            res[n] = None
            continue
        if not isinstance(m, types.ModuleType) or m.__name__ != n:
            res[n] = None
            continue
        parent, _, last = n.rpartition(".")
        if parent and getattr(sys.modules.get(parent), last, None) is not m:
            # the package hides its submodule behind something else
            res[n] = None
            continue
        want, subs = describe(m)
        res[n] = want
        todo += [f"{n}.{s}" for s in subs]
    print(json.dumps(res), file=out, flush=True)
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1:])
