import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import awkward
import grids
import pygen
import realmods
import vcommon as v
import world

SWITCHES = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs", "traverse_submodules"]
STDLIB = """
abc argparse array ast asyncio base64 bisect bz2 calendar cmath codecs collections colorsys concurrent configparser contextlib contextvars copy csv ctypes curses dataclasses datetime
decimal difflib dis email enum errno fileinput fnmatch fractions ftplib functools gc getpass gettext glob gzip hashlib heapq hmac html http imaplib importlib inspect io ipaddress itertools
json keyword linecache locale logging lzma mailbox marshal math mimetypes multiprocessing netrc numbers operator os pathlib pdb pickle pkgutil platform plistlib poplib pprint profile pstats
pydoc queue quopri random re reprlib resource sched secrets select selectors shelve shlex shutil signal smtplib socket socketserver sqlite3 ssl stat statistics string struct subprocess symtable
sys sysconfig tarfile tempfile termios textwrap threading time timeit token tokenize tomllib trace traceback tracemalloc types typing unittest urllib uuid warnings wave weakref
webbrowser wsgiref xml xmlrpc zipapp zipfile zipimport zlib zoneinfo
""".split()
QUICK_STD = "argparse ast collections concurrent csv datetime decimal email enum html http importlib inspect ipaddress itertools json logging math os pathlib random re sqlite3 ssl string sys tarfile threading types unittest urllib uuid xml zipfile".split()


def randcfg(r):
    cfg = {k: r.random() < 0.6 for k in SWITCHES if r.random() < 0.5}
    if r.random() < 0.25:
        cfg["include_private"] = True
    if r.random() < 0.2:
        cfg["blocklist_names"] = pygen.BLOCKLIST + r.sample(pygen.WORDS + pygen.CWORDS, 8)
    if r.random() < 0.1:
        cfg.update(generate_dependencies=True, traverse_submodules=True)
    return cfg


LEAF = """int str bool float complex bytes bytearray None object typing.Any datetime.date datetime.datetime datetime.timedelta datetime.time datetime.timezone ipaddress.IPv4Address
ipaddress.IPv6Address pathlib.Path os.PathLike slice type range memoryview list dict set frozenset tuple Own Mapped typing.Callable typing.Callable[[int],str] typing.Hashable types.ModuleType
types.FunctionType types.CodeType decimal.Decimal enum.Enum Colour uuid.UUID typing.Iterator[int] T typing.Type[Own] typing.Literal['a'] BaseException ValueError types.EllipsisType NotImplementedType""".split()
AROUND = ["typing.Optional[{}]", "typing.Union[{}, int]", "typing.Union[{}, Own]", "typing.Tuple[{}]", "typing.Tuple[{}, int]", "typing.Tuple[int, {}]", "typing.Tuple[{}, {}, str]", "typing.Tuple[{}, ...]",
          "typing.List[{}]", "typing.FrozenSet[{}]", "typing.Set[{}]", "typing.Dict[int, {}]", "typing.Dict[{}, int]", "typing.Annotated[{}, 1]", "typing.Sequence[{}]"]
KEYED = ["typing.Dict[{}, int]", "typing.Dict[{}, {}]", "typing.Set[{}]", "typing.FrozenSet[{}]", "typing.Mapping[{}, str]", "typing.List[typing.Dict[{}, int]]", "typing.Optional[typing.Set[{}]]",
         "typing.Dict[typing.Tuple[{}, int], {}]", "typing.Dict[str, typing.Dict[{}, int]]", "collections.OrderedDict[{}, int]", "collections.defaultdict[{}, int]", "collections.abc.Mapping[{}, int]",
         "collections.abc.Set[{}]", "typing.MutableMapping[{}, int]", "typing.Tuple[typing.Set[{}], ...]"]


def keyed(r, root):
    """Modules whose functions use all kinds of types in all kinds of places, above all those where Rust needs to hash them."""
    types = [k.replace("{}", x) for x in LEAF for k in KEYED]
    inner = [a.replace("{}", x) for x in LEAF for a in AROUND]
    more = [k.replace("{}", x) for x in inner for k in KEYED]
    types += inner + (more if v.THOROUGH else r.sample(more, 700))
    names = []
    for k in range(0, len(types), 100):
        names.append(f"keyed{k // 100}")
        with open(os.path.join(root, names[-1] + ".py"), "w") as f:
            f.write("import typing, datetime, ipaddress, pathlib, os, types, decimal, enum, uuid, collections, collections.abc\nNotImplementedType = type(NotImplemented)\nT = typing.TypeVar('T')\n"
                    "class Own: pass\nclass Mapped(dict): pass\nclass Colour(enum.Enum):\n    RED = 1\n")
            for i, t in enumerate(types[k:k + 100]):
                f.write(f"def fn{i}(a: {t}, *b: {t}, c: {t} = None) -> {t}: ...\n")
    return names


def nested(root):
    """Modules with deeply nested types, below and above all limits (of the library, of the recursion of rustc, of the stack)."""
    names = []
    for n in (8, 16, 24, 28, 29, 30, 31, 32, 33, 34, 48, 62, 63, 64, 65, 100, 127, 128, 129, 256, 600) if v.THOROUGH else (16, 30, 31, 32, 33, 64, 100, 128, 300):
        src = f"import typing\ndef mk(f, x):\n    for _ in range({n}): x = f(x)\n    return x\n"
        types = ["list[t]", "dict[str, t]", "tuple[t, int]", "tuple[t, ...]", "list[t] | None", "frozenset[t]", "set[t]", "typing.Sequence[t]"] + (["typing.Union[int, list[t]]"] if n < 200 else [])
        k = 0
        for leaf in ("int", "bytes", "Own"):
            for t in types:
                src += f"T{k} = mk(lambda t: {t}, {leaf if leaf != 'Own' else 'type(mk)'})\n"
                k += 1
        for t in ("list[", "typing.List[", "dict[str, ", "tuple[int, ", "None | list[", "typing.Optional["):
            src += f"T{k} = {t!r} * {n} + 'bytes' + ']' * {n}\n"
            k += 1
        for i in range(k):
            src += f"def fn{i}(a, *b, c): return a\nfn{i}.__annotations__ = dict(a=T{i}, c=T{i}, **{{'return': T{i}}})\n"
        src += f"class Own:\n    def m(self, a): return a\n    m.__annotations__ = dict(a=T{k // 2})\n    p = property(m, lambda self, x: None)\n    p.fset.__annotations__ = dict(x=T1)\n"
        src += "del " + ", ".join(f"T{i}" for i in range(k)) + "\n"
        names.append(f"nested{n}")
        with open(os.path.join(root, names[-1] + ".py"), "w") as f:
            f.write(src)
    return names


def awkwards(r, root):
    """Packages with the awkward items that C01 generates bindings for, alone and together."""
    cases = [[s] for s in awkward.S] + [r.sample(awkward.S, r.randint(2, 6)) for _ in range(200 if v.THOROUGH else 24)]
    for i, group in enumerate(cases):
        src = "\n".join(s["src"] for s in group)
        files = {f"awk{i}/__init__.py": awkward.BASE + "\n" + src, f"awk{i}/sub.py": "def g(x): return x\n" + (src if i % 3 == 0 else "")}
        for n, text in files.items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text.encode("utf-8", "surrogatepass"))
        yield f"awk{i}", group, files


def batch(files, tag):
    """Type checks several bindings together: [(name, message)] of those that fail."""
    live = list(files)
    bad = []
    while live:
        src = os.path.join(v.workdir(), f"{tag}.rs")
        with open(src, "w") as f:
            for i, (name, path) in enumerate(live):
                f.write(f"pub mod g{i} {{ include!({grids_str(path)}); }}\n")
        ok, msg = v.rustc(src)
        if ok is None:
            raise v.Infra(msg)
        if ok:
            break
        hit = [(n, p) for n, p in live if os.path.basename(p) in msg] or live
        for n, p in hit:
            lines = [ln for ln in msg.splitlines() if os.path.basename(p) in ln and "error" in ln] or [ln for ln in msg.splitlines() if "error" in ln]
            bad.append((n, lines))
        live = [x for x in live if x not in hit]
    return bad


def grids_str(p):
    return '"' + p.replace("\\", "\\\\") + '"'


def check(rep):
    rep.rule = (
        "the real bindings of random packages (9 profiles and an annotation grid) under the default and under random configurations, and of the standard"
        " library and third-party packages, are type checked by rustc against the pyo3 that the library uses; a case is a distinct pair of package and configuration"
    )
    v.build_drv()
    v.canary()
    r = v.rng("c02")
    d = v.workdir()
    w = world.World("cc", 480 if v.THOROUGH else 96)
    for k, pkg in enumerate(grids.packages()):
        w.add(pkg)
    jobs, info = [], {}
    for name in w.pkgs:
        cfgs = [None] + [randcfg(r) for _ in range(3 if v.THOROUGH else 1)]
        for k, cfg in enumerate(cfgs):
            jid = f"{name}-{k}"
            jobs.append(w.job(name, id=jid, cfg=cfg, model=False, pretty=f"{d}/{jid}.rs"))
            info[jid] = (f"package {name}, configuration {cfg}", w.detail(name), cfg)
    for n in keyed(r, w.root):
        jobs.append({"id": n, "sys_path": [w.root], "steps": [{"op": "name", "v": n}], "model": False, "pretty": f"{d}/{n}.rs"})
        info[n] = (f"module {n} with hashed types", open(os.path.join(w.root, n + ".py")).read(), None)
    for n in nested(w.root):
        jobs.append({"id": n, "sys_path": [w.root], "steps": [{"op": "name", "v": n}], "model": False, "pretty": f"{d}/{n}.rs"})
        info[n] = (f"module {n} with nested types", open(os.path.join(w.root, n + ".py")).read(), None)
    for n, group, files in awkwards(r, os.path.join(d, "awk")):
        for k, cfg in enumerate([None, randcfg(r)] if v.THOROUGH or len(group) > 1 else [None]):
            jobs.append({"id": f"{n}-{k}", "sys_path": [os.path.join(d, "awk")], "steps": [{"op": "name", "v": n}], "cfg": cfg, "model": False, "pretty": f"{d}/{n}-{k}.rs"})
            info[f"{n}-{k}"] = (f"awkward items {'+'.join(s['name'] for s in group)[:120]}, configuration {cfg}", {"files": files, "cfg": cfg}, cfg)
    for n in STDLIB if v.THOROUGH else QUICK_STD:
        cfgs = [None] if n in ("email", "xml", "unittest", "http", "asyncio", "multiprocessing") else [None, randcfg(r)]
        for k, cfg in enumerate(cfgs):
            if cfg and cfg.pop("generate_dependencies", None):
                cfg["traverse_submodules"] = True
            jid = f"std-{n}-{k}"
            jobs.append({"id": jid, "steps": [{"op": "name", "v": n}], "cfg": cfg, "model": False, "pretty": f"{d}/{jid}.rs"})
            info[jid] = (f"standard library module {n}, configuration {cfg}", jobs[-1], cfg)
    third = realmods.third()
    for n in third + realmods.heavy() if v.THOROUGH else r.sample(third, min(len(third), 24)):
        for k, cfg in enumerate([None, randcfg(r)]):
            if cfg and cfg.pop("generate_dependencies", None):
                cfg["traverse_submodules"] = True
            jid = f"third-{n}-{k}"
            jobs.append({"id": jid, "sys_path": [realmods.SITE], "steps": [{"op": "name", "v": n}], "cfg": cfg, "model": False, "pretty": f"{d}/{jid}.rs"})
            info[jid] = (f"third-party package {n}, configuration {cfg}", jobs[-1], cfg)
    res = v.run_drv(jobs, timeout=120)
    good = []
    for jid, x in res.items():
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x))
        if x["status"] != "ok" or not x.get("syntax"):
            rep.violation(f"no bindings for {info[jid][0]}: {str(x)[:300]}", info[jid][1])
            continue
        good.append((jid, f"{d}/{jid}.rs", os.path.getsize(f"{d}/{jid}.rs")))
    # similar sizes per invocation
    batches, cur, size = [], [], 0
    for jid, p, s in sorted(good, key=lambda x: -x[2]):
        cur.append((jid, p))
        size += s
        if size > 400_000 or len(cur) >= 40:
            batches.append(cur)
            cur, size = [], 0
    if cur:
        batches.append(cur)
    for bad in v.pmap(lambda x: batch(x[1], f"batch{x[0]}"), list(enumerate(batches))):
        for jid, lines in bad:
            what, detail, cfg = info[jid]
            sig = jid.rsplit("-", 1)[0] if jid.startswith(("std-", "third-")) else None
            rep.violation(f"{what}: {' | '.join(lines[:3])[:500]}", {"rustc": lines[:30], "input": detail}, sig=sig)
    for jid, p, s in good:
        rep.case(jid)
        rep.count("bytes of bindings type checked", s)
        rep.count("bindings type checked: " + ("standard library" if jid.startswith("std-") else "third-party packages" if jid.startswith("third-") else "types" if jid.startswith(("keyed", "nested")) else "awkward items" if jid.startswith("awk") else "random packages"))
    rep.sample("configurations", [info[j][2] for j, _, _ in good[:12]])


v.main("C02", check)
