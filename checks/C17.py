import importlib
import json
import os
import subprocess
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import oracle
import rustgen
import vcommon as v
import world

STD = ["json", "xml.etree", "concurrent.futures", "email", "logging", "importlib", "unittest", "asyncio", "multiprocessing", "html", "http", "urllib", "xml.dom", "sqlite3", "wsgiref", "xml.sax", "re", "os",
       "distutils", "dbm", "collections", "string", "textwrap", "argparse", "tempfile", "random", "shutil", "decimal", "datetime", "uuid", "queue", "heapq", "bisect", "enum", "dataclasses", "functools"]

# Hand-written packages with what every public path must denote and what annotations must resolve to.
# (sources, {rust path: python path}, {rust function path: (parameter types, return type)} with @ for generated classes)
CASES = {
    "same names": (
        {"__init__": "from .a import C as CA\nfrom .b import C as CB\nfrom .a import f\nfrom .b import f as fb\nfrom . import a, b\n",
         "a": "class C:\n    def m(self, o: 'C') -> 'list[int]': ...\ndef f(x: C) -> C: ...\ndef two(x: C, y: list[C], z: dict[str, C]) -> None: ...\n",
         "b": "from . import a as other\nclass C:\n    def m(self, o: other.C) -> list[other.C]: ...\ndef f(x: C, y: other.C) -> C: ...\ndef g(x: other.C | None) -> C: ...\n"},
        {"CA": "a.C", "CB": "b.C", "f": "a.f", "fb": "b.f"},
        {"a::f": (["@a.C"], "@a.C"), "a::two": (["@a.C", "@a.C", "@a.C"], None), "b::f": (["@b.C", "@a.C"], "@b.C"), "b::g": (["?@a.C"], "@b.C")},
    ),
    "chain": (
        {"__init__": "from .x import K as Top\nfrom .x.y import K\nfrom .x.y.z import K as Deep, fn as deep_fn\nfrom .x.y import z as zed\n",
         "x/__init__": "from .y import K\nfrom .y.z import fn\nfrom . import y\n", "x/y/__init__": "from .z import K\nfrom .z import fn as again\nfrom . import z\n",
         "x/y/z": "class K: ...\ndef fn(k: K) -> K: ...\n"},
        {"Top": "x.y.z.K", "K": "x.y.z.K", "Deep": "x.y.z.K", "deep_fn": "x.y.z.fn", "x::K": "x.y.z.K", "x::r#fn": "x.y.z.fn", "x::y::K": "x.y.z.K", "x::y::again": "x.y.z.fn", "zed": "x.y.z"},
        {"x::y::z::r#fn": (["@x.y.z.K"], "@x.y.z.K")},
    ),
    "keywords": (
        {"__init__": "from .type import match as ref\nfrom .type import match\nfrom .type import struct as Impl\nfrom . import type as loop\n",
         "type": "class struct:\n    def m(self, s: 'struct') -> None: ...\ndef match(a: struct, b: 'list') -> struct: ...\n"},
        {"r#ref": "type.match", "r#match": "type.match", "Impl": "type.struct", "r#loop": "type"},
        {"r#type::r#match": (["@type.struct", None], "@type.struct")},
    ),
    "annotations through re-exported modules": (
        {"__init__": "from .inner import shapes as sh, shapes\nfrom . import inner as nested\nclass Top: ...\n"
                     "def area(s: 'sh.Square') -> 'sh.Square': ...\ndef plain(s: 'shapes.Square', t: 'list[shapes.Square]') -> 'shapes.Square': ...\n",
         "inner/__init__": "", "inner/shapes": "class Square:\n    def m(self, o: 'Square') -> None: ...\n"},
        {"sh": "inner.shapes", "shapes": "inner.shapes", "nested": "inner"},
        {"area": (["@inner.shapes.Square"], "@inner.shapes.Square"), "plain": (["@inner.shapes.Square", None], "@inner.shapes.Square")},
    ),
    "private owner": (
        {"__init__": "from ._impl import C, f\nfrom .pub import D\nimport json as js\nfrom json import dumps\n", "_impl": "class C: ...\ndef f() -> C: ...\n",
         "pub": "from ._impl import C\nclass D:\n    def m(self, c: C) -> C: ...\n"},
        {"D": "pub.D"}, {},
    ),
    "names of the standard library": (
        {"__init__": "", "pathlib": "class Path: ...\nclass PurePath(Path): ...\ndef f(a: Path, b: 'list[int]', c: list[Path]) -> Path: ...\n",
         "datetime": "class date: ...\nclass datetime(date): ...\nclass timedelta: ...\ndef f(a: date, b: datetime, c: timedelta | None) -> datetime: ...\n",
         "kinds": "class List: ...\nclass Any: ...\nclass Optional: ...\ndef f(a: List, b: Any, c: dict[str, Optional]) -> List: ...\n",
         "ipaddress": "from .pathlib import Path\nclass IPv4Address: ...\nclass Decimal: ...\ndef f(a: IPv4Address, b: Decimal, c: Path) -> Path: ...\n",
         "collections/__init__": "class OrderedDict: ...\n", "collections/abc": "from . import OrderedDict\nclass Mapping: ...\nclass Callable: ...\ndef f(a: Mapping, b: Callable, c: OrderedDict) -> Callable: ...\n"},
        {},
        {"pathlib::f": (["@pathlib.Path", None, "@pathlib.Path"], "@pathlib.Path"),
         "datetime::f": (["@datetime.date", "@datetime.datetime", "?@datetime.timedelta"], "@datetime.datetime"),
         "kinds::f": (["@kinds.List", "@kinds.Any", "@kinds.Optional"], "@kinds.List"),
         "ipaddress::f": (["@ipaddress.IPv4Address", "@ipaddress.Decimal", "@pathlib.Path"], "@pathlib.Path"),
         "collections::abc::f": (["@collections.abc.Mapping", "@collections.abc.Callable", "@collections.OrderedDict"], "@collections.abc.Callable")},
    ),
    "elements": (
        {"__init__": "", "m/__init__": "from .n import E\nimport typing as t\nclass C: ...\n"
         "def f(a: t.List[C], b: t.Tuple[E, int], c: t.Tuple[C, ...], d: t.Optional[E], e: t.Dict[str, t.List[C]], g: t.Sequence[E], h: list[list[list[C]]]) -> t.List[E]: ...\n", "m/n": "class E: ...\n"},
        {"m::E": "m.n.E"},
        {"m::f": (["@m.C", "@m.n.E", "@m.C", "?@m.n.E", "@m.C", "@m.n.E", "@m.C"], "@m.n.E")},
    ),
    "prefixes": (
        {"__init__": "", "a": "class C: ...\nclass CC: ...\nclass C_: ...\n", "ab": "class C: ...\nfrom .a import CC\ndef f(x: C, y: CC) -> CC: ...\n", "a_": "from .ab import C\nfrom .a import C_\ndef f(x: C, y: C_) -> C: ...\n",
         "ab_/__init__": "", "ab_/a": "from ..a import C\nclass CC: ...\ndef f(x: C, y: CC) -> C: ...\n"},
        {}, {"ab::f": (["@ab.C", "@a.CC"], "@a.CC"), "a_::f": (["@ab.C", "@a.C_"], "@ab.C"), "ab_::a::f": (["@a.C", "@ab_.a.CC"], "@a.C")},
    ),
    "metaclasses": (
        {"__init__": "from .e import F as Flags\nfrom .e import E\n", "e": "import enum\nclass E(enum.Enum):\n    A = 1\nclass F(enum.Flag):\n    A = 1\nclass I(enum.IntFlag):\n    A = 1\nclass Meta(type):\n    def __repr__(cls): return f'Meta of {cls.__name__}'\nclass M(metaclass=Meta): ...\n"
         "class Out:\n    class In(enum.Enum):\n        B = 1\n    class Fl(enum.Flag):\n        B = 1\ndef f(a: E, b: F, c: M, d: list[E]) -> F: ...\n",
         "use": "from .e import E, F, M\nfrom . import e\ndef f(a: E, b: F, c: M, d: dict[str, F], g: M | None) -> E: ...\ndef g(a: e.E, b: list[e.M]) -> e.M: ...\n"},
        {"Flags": "e.F", "E": "e.E"},
        {"e::f": (["@e.E", "@e.F", "@e.M", "@e.E"], "@e.F"), "r#use::f": (["@e.E", "@e.F", "@e.M", "@e.F", "?@e.M"], "@e.E"), "r#use::g": (["@e.E", "@e.M"], "@e.M")},
    ),
    "names of submodules": (
        {"__init__": "from .other import thing, Kl as kl\nfrom .other import thing as alias\nfrom .other import sub\nimport logging, string\nfrom .deep import deep\n", "thing": "def hidden(): ...\n", "kl": "class Hidden: ...\n", "alias": "x = 1\n",
         "sub": "class Q: ...\n", "logging": "class L: ...\ndef get(a: L) -> L: ...\n", "string": "class S: ...\n", "deep/__init__": "from .impl import deep\n", "deep/impl": "def deep(): ...\n",
         "other/__init__": "from . import sub\ndef thing(a): ...\nclass Kl: ...\n", "other/sub": "class R: ...\n", "p/__init__": "from ..other import Kl as other\nfrom ..other import Kl\n", "p/other": "from .. import logging as lg\nclass O: ...\ndef f(a: O) -> O: ...\n"},
        {"thing": "other.thing", "kl": "other.Kl", "alias": "other.thing", "sub": "other.sub"},
        {"logging::get": (["@logging.L"], "@logging.L"), "p::other::f": (["@p.other.O"], "@p.other.O")},
    ),
    "siblings and parents": (
        {"__init__": "class Root: ...\n", "p/__init__": "class Base: ...\ndef up(a: Base) -> Base: ...\n", "p/q": "from .. import Root\nfrom . import Base\nfrom ..s.t import Leaf\ndef all3(a: Root, b: Base, c: Leaf) -> Leaf: ...\nclass H:\n    def get(self, r: Root) -> Leaf: ...\n",
         "s/__init__": "", "s/t": "from ..p import Base as B\nclass Leaf(B):\n    def back(self, b: B) -> 'int': ...\n"},
        {},
        {"p::up": (["@p.Base"], "@p.Base"), "p::q::all3": (["@Root", "@p.Base", "@s.t.Leaf"], "@s.t.Leaf")},
    ),
}
# (source, names in the prelude or None)
PRELUDES = {
    "subset": ("__all__ = ['f', 'C']\ndef f(): ...\ndef g(): ...\nclass C: ...\nclass D: ...\n", {"f", "C"}),
    "same as public": ("__all__ = ['f', 'C']\ndef f(): ...\nclass C: ...\ndef _g(): ...\n", None),
    "none": ("def f(): ...\n", None),
    "imports": ("from json import dumps, JSONEncoder\nimport os\n__all__ = ['f', 'dumps', 'JSONEncoder', 'os']\ndef f(): ...\nclass C: ...\n", {"f"}),
    "variables": ("__all__ = ['x', 'f']\nx: int = 1\ny: int = 2\ndef f(): ...\n", {"x", "f"}),
    "missing": ("__all__ = ['nothing', 'f']\ndef f(): ...\ndef g(): ...\n", {"f"}),
    "keywords": ("__all__ = ['type', 'match', 'fn']\ndef type(): ...\nclass match: ...\nfn: int = 1\ndef other(): ...\n", {"r#type", "r#match", "r#fn"}),
    "private": ("__all__ = ['_f', 'g']\ndef _f(): ...\ndef g(): ...\ndef h(): ...\n", {"g"}),
    "type variables": ("import typing\n__all__ = ['T', 'f']\nT = typing.TypeVar('T')\nU = typing.TypeVar('U')\ndef f(): ...\n", {"T", "f"}),
    "only imports": ("from json import dumps\n__all__ = ['dumps']\ndef f(): ...\n", None),
    "alias": ("__all__ = ['g', 'D']\ndef f(): ...\ng = f\nclass C: ...\nD = C\n", {"g", "D"}),
    "empty": ("__all__ = []\ndef f(): ...\n", None),
    "tuple": ("__all__ = ('f', 'C')\ndef f(): ...\ndef g(): ...\nclass C: ...\nclass D: ...\n", {"f", "C"}),
    "tuple of all": ("__all__ = ('f', 'C')\ndef f(): ...\nclass C: ...\n", None),
    "named tuple": ("import collections\n__all__ = collections.namedtuple('_A', 'p q')('f', 'C')\ndef f(): ...\ndef g(): ...\nclass C: ...\n", {"f", "C"}),
    "derived list": ("class _L(list): ...\n__all__ = _L(['f'])\n__all__ += ('C', 'nothing')\ndef f(): ...\ndef g(): ...\nclass C: ...\n", {"f", "C"}),
    "order": ("__all__ = ['c', 'a', 'b']\ndef a(): ...\ndef b(): ...\ndef c(): ...\ndef d(): ...\n", {"a", "b", "c"}),
}

W = {"fn": 3, "cls": 3, "var": 1, "tv": 0.5, "alias": 1.5, "import": 14, "other": 0.2}


def random_packages(rep):
    """Re-exports and preludes of random packages: compared with the construction, and called."""
    w = world.World("rx", 480 if v.THOROUGH else 120, ["exports", "deep", "types", "default", "repeats"], opts={"all": 0.7, "w": W})
    w2 = world.World("ry", 192 if v.THOROUGH else 64, ["exports", "deep", "repeats"], opts={"all": 0.7, "items": (2, 4), "methods": 1, "params": 2, "w": W, "reexports": 0.95, "private": 0})

    def structure(world_, res):
        for n, x in res.items():
            d, k, exp, act = world.compare(world_.pkgs[n], x["model"], ["uses", "types", "odd"])
            rep.case((n, "structure") if k > 3 else None)
            rep.count("types and re-exports compared", k)
            for m in walk(exp):
                rep.count("re-exports", len(m.uses))
                rep.count("preludes", bool(m.prelude))
                rep.count("names in preludes", len(m.prelude or ()))
            for what in (d["uses"] + d["types"] + d["odd"])[:3]:
                rep.violation(f"{n}: {what}", world_.detail(n))
            rep.sample("package", {"package": n, "re-exports": {f"{m.full}.{k}": u for m in walk(exp) for k, u in m.uses.items()}, "preludes": {m.full: sorted(m.prelude) for m in walk(exp) if m.prelude}}, 4)

    structure(w, w.generate(rep))
    structure(w2, w2.generate(rep))
    stats = {"re-exported functions called": 0, "re-exported classes unified with their type": 0, "re-exported modules used": 0, "names in preludes used": 0}

    def extra(prog, g, exp, sh):
        k = 0

        def identity(a, b):
            # the two paths name one type
            prog.extra.append(f"fn same_{g}_{len(prog.extra)}<'a, 'py>(x: &'a Bound<'py, {a}>) -> &'a Bound<'py, {b}> {{ x }}")

        for m in walk(exp):
            here = oracle.lookup_mod(sh, tuple(path_of(exp, m)))
            if here is None:
                continue
            base = "::".join((f"g{g}",) + here.path)
            for n, full in m.uses.items():
                segs = full.split(".")
                tm = find_full(exp, segs)
                if tm is not None:
                    # a module
                    tp = oracle.lookup_mod(sh, tuple(path_of(exp, tm)))
                    for fnname, f in list(tp.fns.items())[:3] if tp else ():
                        prog.add_path(g, {"kind": "fn", "mod": list(tp.path), "name": fnname}, f, f"{base}::{n}::{fnname}")
                        stats["re-exported modules used"] += 1
                    for sn in list(tp.structs)[:2] if tp else ():
                        identity(f"{base}::{n}::{sn}", f"{'::'.join((f'g{g}',) + tp.path)}::{sn}")
                    continue
                tm = find_full(exp, segs[:-1])
                tp = oracle.lookup_mod(sh, tuple(path_of(exp, tm))) if tm is not None else None
                if tp is None:
                    continue
                fnname = next((x for x in (oracle.fn_name(segs[-1]), oracle.rs(segs[-1])) if x in tp.fns), None)
                sn = oracle.struct_name(segs[-1])
                if sn in tp.structs:
                    identity(f"{base}::{n}", f"{'::'.join((f'g{g}',) + tp.path)}::{sn}")
                    for an, f in list(tp.structs[sn].assoc.items())[:2]:
                        prog.add_path(g, {"kind": "assoc", "mod": list(tp.path), "struct": sn, "name": an}, f, f"{base}::{n}::{an}")
                    stats["re-exported classes unified with their type"] += 1
                elif fnname:
                    prog.add_path(g, {"kind": "fn", "mod": list(tp.path), "name": fnname}, tp.fns[fnname], f"{base}::{n}")
                    stats["re-exported functions called"] += 1
            if m.prelude and here.prelude:
                pre = f"{base}::{here.prelude[0]}"
                for n in sorted(m.prelude):
                    if n in here.fns:
                        prog.add_path(g, {"kind": "fn", "mod": list(here.path), "name": n}, here.fns[n], f"{pre}::{n}")
                    elif n in here.structs:
                        identity(f"{pre}::{n}", f"{base}::{n}")
                    else:
                        continue
                    stats["names in preludes used"] += 1

    execute.run_world(rep, w2, ["fn", "new", "class", "static", "vget"], rounds=2, per=4, tag="ry", extra=extra)
    for k, n in stats.items():
        rep.count(k, n)


def walk(n):
    yield n
    for m in n.mods.values():
        yield from walk(m)


def path_of(root, node):
    def rec(cur, p):
        if cur is node:
            return p
        for n, m in cur.mods.items():
            q = rec(m, p + [n])
            if q is not None:
                return q
    return rec(root, [])


def find_full(root, segs):
    cur = root
    for s in segs:
        cur = next((m for n, m in cur.mods.items() if n in (s, f"r#{s}")), None)
        if cur is None:
            return None
    return cur


def fixed(rep):
    """Hand-written packages with tricky names."""
    root = os.path.join(v.workdir(), "py-fixed")
    jobs, info = [], {}
    for i, (what, (src, names, sigs)) in enumerate(CASES.items()):
        n = f"fx{i}"
        for f, text in src.items():
            p = os.path.join(root, n, f + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            for d in (os.path.dirname(p),):
                if not os.path.exists(os.path.join(d, "__init__.py")):
                    open(os.path.join(d, "__init__.py"), "w").close()
            with open(p, "w") as fh:
                fh.write(text)
        jobs.append({"id": n, "sys_path": [root], "steps": [{"op": "name", "v": n}], "pretty": os.path.join(v.workdir(), f"{n}.rs")})
        info[n] = (what, src, names, sigs)
    for i, (what, (src, want)) in enumerate(PRELUDES.items()):
        n = f"pr{i}"
        with open(os.path.join(root, n + ".py"), "w") as fh:
            fh.write(src)
        jobs.append({"id": n, "sys_path": [root], "steps": [{"op": "name", "v": n}], "pretty": os.path.join(v.workdir(), f"{n}.rs")})
    res = v.run_drv(jobs)
    progs = []
    for j in jobs:
        n = j["id"]
        x = res[n]
        if x["status"] != "ok":
            rep.violation(f"{n}: no bindings: {str(x)[:300]}", info.get(n))
            continue
        sh = oracle.shape(x["model"])
        prog = rustgen.Program()
        prog.add_gen(j["pretty"], sh, lambda e: False)
        if n in info:
            what, src, names, sigs = info[n]
            detail = {"sources": src}
            for path, want in names.items():
                rep.case((what, path))
                rep.count("names resolved")
                r = oracle.resolve(sh, [], [n] + path.split("::"))
                got = r and ".".join(s[2:] if s.startswith("r#") else s for s in r)
                if got != f"{n}.{want}":
                    rep.violation(f"{what}: {path} denotes {got} instead of {n}.{want}", detail)
                elif want[-1:].isalpha():
                    prog.extra.append(f"mod u{len(prog.extra)} {{ pub use super::g0::{n}::{path} as renamed; }}")
            for path, (params, ret) in sigs.items():
                segs = path.split("::")
                m = oracle.lookup_mod(sh, (n, *segs[:-1]))
                f = m and m.fns.get(segs[-1])
                rep.case((what, path, "types"))
                if f is None:
                    rep.violation(f"{what}: {path} does not exist", detail)
                    continue
                got = [oracle.actual_type(t, sh, m.path) for _, t in f["params"][1:]] + [oracle.actual_type(f["ret"], sh, m.path)]
                for g, w in zip(got, params + [ret]):
                    rep.count("annotations resolved")
                    if w is None:
                        continue
                    core = w.replace("?", "").replace("@", f"@{n}.")
                    bare = core + ">" if ">" in g else core
                    if bare not in g and core not in g.replace(" ", "") or g.count("@") != 1 or ("?" in w) != ("option::Option" in g):
                        rep.violation(f"{what}: {path}: an annotation resolves to {g} instead of {core}", detail)
        else:
            what = list(PRELUDES)[int(n[2:])]
            src, want = PRELUDES[what]
            m = oracle.lookup_mod(sh, (n,))
            got = {p[0] for p in m.prelude[1]} if m.prelude else None
            rep.case(("prelude", what))
            rep.count("fixed preludes")
            if got != want:
                rep.violation(f"prelude ({what}): {got and sorted(got)} instead of {want and sorted(want)}", {"source": src})
        progs.append((n, prog))

    def build(job):
        n, prog = job
        src = os.path.join(v.workdir(), f"p{n}.rs")
        prog.write(src)
        return n, v.rustc(src, src + ".rmeta", extra=["--crate-type", "lib"])

    for n, (ok, out) in v.pmap(build, progs):
        rep.count("fixed packages compiled")
        if not ok:
            rep.violation(f"{info[n][0] if n in info else n}: the paths do not compile: {[x for x in out.splitlines() if 'error' in x][:3]}", {"rustc": out[:3000]})


LIVE = r"""
import importlib, json, sys, types, warnings
warnings.simplefilter("ignore")
out = []
n = 0
def follow(full):
    parts = full.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            o = getattr(o, p) if hasattr(o, p) else getattr(o, p.rstrip("_"))
        return o
for mod, uses, prelude, items in json.load(sys.stdin):
    try:
        m = importlib.import_module(mod)
    except ImportError:
        continue
    for name, target in uses.items():
        n += 1
        try:
            if follow(target) is not getattr(m, name):
                out.append(f"{mod}.{name} is another object than {target}")
        except AttributeError as e:
            out.append(f"{mod}.{name} is said to be {target}: {e}")
    al = getattr(m, "__all__", None)
    if prelude is not None:
        for name in prelude:
            n += 1
            if name not in (al or ()):
                out.append(f"the prelude of {mod} has {name}, which is not in __all__")
    if isinstance(al, (list, tuple)) and {x for x in al} != {x for x in dir(m) if not x.startswith("_")}:
        for name in al:
            o = getattr(m, name, None)
            if name in items and isinstance(o, (type, types.FunctionType)) and o.__module__ == mod:
                n += 1
                if name not in (prelude or ()):
                    out.append(f"the prelude of {mod} lacks {name}")
json.dump([out, n], sys.stdout)
"""


def stdlib(rep):
    """Re-exports and preludes of real packages: compared with the live objects."""
    res = v.run_drv([{"id": n, "steps": [{"op": "name", "v": n}]} for n in STD])

    def strip(s):
        return s[2:] if s.startswith("r#") else s

    data = []
    for n in STD:
        x = res[n]
        if x["status"] != "ok":
            raise v.Infra(f"{n}: {str(x)[:300]}")
        sh = oracle.shape(x["model"])
        mods = []
        for m in sh.walk():
            full = ".".join(strip(s) for s in m.path)
            uses = {}
            for name, (path, vis) in m.uses.items():
                r = oracle.resolve(sh, m.path, path)
                if r is None:
                    # what does not exist would not compile
                    rep.violation(f"{full}: re-export {name} of {'::'.join(path)} denotes nothing", {"module": full})
                    continue
                uses[strip(name)] = ".".join(strip(s) for s in r)
            pre = [strip(p[0]) for p in m.prelude[1]] if m.prelude else None
            if full and (uses or pre or m.fns or m.structs):
                mods.append((full, uses, pre, [strip(x) for x in (*m.fns, *m.structs)]))
                if uses or pre:
                    rep.case(("live", full))
        data.append((n, mods))

    def live(job):
        n, mods = job
        # the driver found no name that hides the real module; a new interpreter decides
        p = subprocess.run([v.PYTHON, "-I", "-c", LIVE], input=json.dumps(mods), capture_output=True, text=True, timeout=120, env=v.child_env(), cwd=v.workdir())
        try:
            return n, json.loads(p.stdout.splitlines()[-1])
        except (ValueError, IndexError):
            raise v.Infra(f"{n}: {p.stderr[-500:]}")

    for n, (bad, k) in v.pmap(live, data):
        rep.count("live objects of the standard library compared", k)
        for what in bad[:5]:
            rep.violation(what, {"module": n})


def check(rep):
    rep.rule = (
        "every re-export, prelude and annotation in the bindings of random packages is resolved through the generated paths and compared with the construction; compiled programs call functions"
        " and unify types through the re-exported paths; the same for hand-written packages and for the standard library (object identity); a case is a package, path or entry"
    )
    v.build_drv()
    v.canary()
    fixed(rep)
    stdlib(rep)
    random_packages(rep)


v.main("C17", check)
