import json
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cold
import execute
import oracle
import pygen
import rustgen
import vcommon as v
import world

EMBED = "pyo3_embed_python_source_code"
# where a module says that it comes from
ORIGIN = "[getattr(m, '__file__', None), getattr(m, '__package__', None), m.last.__code__.co_filename, type(m.__spec__).__name__, type(m.__loader__).__name__, type(m).__name__]"
TEXTS = [
    "", " ", "\t", "\"", "'", "\\", "\\\\n", "\"#", "\"##", "r###\"", "\"\"", "{}", "{0}", "{{", "}", "$x", "#![no_std]", "// no", "/* open", "*/ close", "\\u{41}", "\\x41", "%s",
    "größe", "данные", "日本語", "\U0001f600", "\u202e evil \u202c", "\u2066x\u2069", "\u200b\u200d\ufeff", "\x01\x02\x1b[0m", "\x7f\x85\u2028\u2029", "a\u0301", "\U000e0001", "\x0b\x0c",
    "const SOURCE_CODE: &str = \"x\";", "include_str!(\"x\")", "\\\n", "\\", "line1\nline2", "crlf\r\nline", "lone\rcr", "tab\tend ", "    trailing   ", "ß" * 500, "x" * 5000,
]
NAMES = ["emb{i}", "emb{i}.", "größe{i}", "type", "match", "async", "move", "fn", "Emb{i}", "EMB{i}", "emb_{i}", "e{i}__x", "str", "main", "tests_", "core", "std", "pyo3", "alloc"]


def source(r, name, i):
    """A module made of hostile text that is still valid Python."""
    t = [r.choice(TEXTS) for _ in range(r.randint(1, 6))]
    out = []
    head = r.random()
    if head > 0.75:
        # (line numbers are part of the code that is compared)
        out += [r.choice(["", "", " ", "\t", "\x0c", "  \t ", "\x0c ", "\\\n", "#"]) for _ in range(r.randint(1, 4))]
    if head < 0.1:
        out.append("# -*- coding: utf-8 -*-")
    elif head < 0.2:
        out.append("#!/usr/bin/env python3")
    if r.random() < 0.5:
        out.append(lit(r, r.choice(TEXTS) + " doc"))
    out.append("import vrec as _v; _v.COUNT[__name__] = _v.COUNT.get(__name__, 0) + 1")
    for k, x in enumerate(t):
        c = "".join(ch for ch in x if ch not in "\r\n\x00\x0c\x0b") or "c"
        out.append(r.choice([f"# {c}", f"T{k} = {lit(r, x)}", f"T{k} = {lit(r, x)}  # {c}", f"def f{k}(a: int = {k}) -> str:\n    {lit(r, x)}\n    return {lit(r, x)} + str(a)",
                             f"class C{k}:\n    {lit(r, x)}\n    def m(self) -> str:\n        return {lit(r, x)}", "", "\t", "\x0c", "class SOURCE_CODE:\n    pass", "class PyModule:\n    pass", "sys = 1", "modules = []"]))
    out.append(f"def last(a: int) -> int:\n    return a + {i}")
    end = r.choice(["\n", "", "\n\n\n", "\n# end", "\r\n", "\n    "])
    sep = "\r\n" if r.random() < 0.15 else "\n"
    s = sep.join(out) + end
    if r.random() < 0.05:
        s = "\ufeff" + s
    try:
        compile(s.encode("utf-8"), name, "exec")
    except (SyntaxError, ValueError):
        return source(r, name, i)
    return s


def lit(r, x):
    """A Python literal, preferably with the raw characters."""
    k = r.random()
    if k < 0.4 and '"""' not in x and not x.endswith(('"', "\\")) and "\x00" not in x:
        return '"""' + x.replace("\\", "\\\\") + '"""'
    if k < 0.7 and not any(c in x for c in "\r\n\\'\x00"):
        return f"'{x}'"
    return repr(x)


SCRIPT = r'''
import builtins, json, sys, types
conf = json.load(open(_vargs[0]))
sys.path.insert(0, conf["root"])
import importlib, vrec
bad, n = [], 0
def plain(d):
    out = {}
    for k, x in d.items():
        if k in ("__builtins__", "__loader__", "__spec__", "__cached__", "__file__", "_v", "__package__"): continue
        if isinstance(x, types.FunctionType): out[k] = ("f", x.__code__, x.__defaults__, x.__doc__, x.__module__)
        elif isinstance(x, type): out[k] = ("c", x.__module__, plain(vars(x))) if not isinstance(x, types.ModuleType) else 0
        elif isinstance(x, (str, int, bytes, float, tuple, list, dict, type(None))): out[k] = x
    return out
for m in conf["modules"]:
    name = m["name"]
    before = dict(sys.modules)
    own = name in sys.modules
    if not own:
        try:
            importlib.import_module(name)
            bad.append((m["i"], f"{name} is importable before it is embedded"))
        except ModuleNotFoundError: pass
    vrec.COUNT.clear()
    try:
        _vcall(m["entry"], ())
    except BaseException as e:
        bad.append((m["i"], f"embedding {name} failed: {e!r}")); continue
    if vrec.COUNT != {name: 1}:
        bad.append((m["i"], f"embedding {name} executed {vrec.COUNT}"))
    got = importlib.import_module(name)
    if vrec.COUNT != {name: 1}:
        bad.append((m["i"], f"importing the embedded {name} executed its source again: {vrec.COUNT}"))
    if got is not sys.modules[name] or got.__name__ != name:
        bad.append((m["i"], f"{name} is not importable under its name"))
    want = {"__name__": name, "__doc__": None}
    exec(compile(m["src"].encode(), "x", "exec"), want)
    a, b = plain(want), plain(vars(got))
    if a != b:
        bad.append((m["i"], f"the content of {name} is not that of its source: {[k for k in a.keys() | b.keys() if a.get(k, 0) != b.get(k, 0)]}"))
    origin = @ORIGIN@
    if origin != m["origin"]:
        bad.append((m["i"], f"{name} has the origin {origin} instead of {m['origin']}"))
    n += len(a)
    x = _vcall(m["last"], (5,))
    if x != 5 + m["k"]:
        bad.append((m["i"], f"the binding of {name}.last returned {x!r}"))
    vrec.COUNT.pop(name)
    new = {k for k in sys.modules if sys.modules[k] is not before.get(k)} - {name, name.rsplit(".", 1)[0]}
    if vrec.COUNT: bad.append((m["i"], "using the bindings executed the source again"))
json.dump({"bad": bad, "n": n}, open(_vargs[1], "w"))
'''.replace("@ORIGIN@", ORIGIN.replace("m.", "got.").replace("(m", "(got"))


def hostile(rep, r, root):
    """Hostile sources: exact content in the tokens, and behaviour of the compiled bindings in a fresh interpreter."""
    count = 480 if v.THOROUGH else 260
    jobs, info = [], {}
    d = v.workdir()
    os.makedirs(os.path.join(root, "onpath"), exist_ok=True)
    with open(os.path.join(root, "onpath", "__init__.py"), "w") as f:
        f.write("x = 1\n")
    # a tree whose modules have the names of embedded ones at other places
    for p in ("hontree", "hontree/emb_twin", "hontree/emb_twin/emb_twin", "hontree/emb_twin/emb_other", "hontree/emb_twin/emb_other/emb_twin", "hontree/emb_last", "hontree/onpath"):
        os.makedirs(os.path.join(root, p), exist_ok=True)
        with open(os.path.join(root, p, "__init__.py"), "w") as f:
            f.write(f"def here(a: int) -> str:\n    return {p!r}\n")
    for i in range(count):
        embedded, steps, plain = {}, [], []
        for k in range(r.choice([1, 1, 1, 2, 3])):
            n = r.choice(NAMES) if r.random() < 0.5 else "emb{i}"
            n = n.format(i=f"{i}x{k}")
            if n.endswith("."):
                # a module given as source inside of a package, which exists or is given as well
                parent = "onpath"
                if r.random() < 0.5:
                    parent = n[:-1]
                    embedded[parent] = source(r, parent, 100 + k)
                    steps.append({"op": "str", "v": parent, "src": embedded[parent]})
                n = f"{parent}.sub{i}x{k}"
            if r.random() < 0.12:
                n = r.choice(["emb_twin", "emb_other", "onpath.emb_twin", "onpath.emb_last", "emb_last", "onpath.emb_other"])
            if n in embedded:
                continue
            embedded[n] = source(r, n, k)
            steps.append({"op": "str", "v": n, "src": embedded[n]})
        if r.random() < 0.4 or any("emb_" in n for n in embedded):
            plain = r.sample(["json", "string", "onpath", "colorsys"], 2)
            if any("emb_" in n for n in embedded):
                # (also as a module that an embedded one shares only its last name with)
                plain[0] = r.choice(["hontree", "hontree", "hontree.emb_twin", "hontree.emb_twin.emb_other", "hontree.emb_last"])
            pos = r.randint(0, len(steps))
            steps[pos:pos] = [{"op": "name", "v": x} for x in plain]
        if r.random() < 0.2:
            steps.append({"op": "clone"})
        cfg = None if r.random() < 0.6 else {x: r.random() < 0.7 for x in ("generate_functions", "generate_classes", "generate_docs", "generate_properties", "traverse_submodules")}
        jobs.append({"id": f"h{i}", "sys_path": [root], "pre": "import sys\nfor k in list(sys.modules):\n    if k.startswith(('emb', 'onpath')): del sys.modules[k]\n",
                     "steps": steps, "cfg": cfg, "pretty": f"{d}/h{i}.rs",
                     "post": f"__import__('json').dumps({{n: {ORIGIN} for n in {sorted(embedded)!r} for m in [__import__('sys').modules[n]]}})"})
        info[f"h{i}"] = [embedded, plain, cfg, None]
    # one process each for names that hide modules of the standard library
    res = v.run_drv(jobs)
    good = []
    for jid, (embedded, plain, cfg, _) in info.items():
        x = res[jid]
        detail = {"sources": embedded, "also": plain, "configuration": cfg}
        rep.case((sorted(embedded.items()), plain, repr(cfg)))
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:1000])
        if x["status"] != "ok" or not x["syntax"]:
            rep.violation(f"{list(embedded)} ({cfg}): no bindings: {str(x)[:400]}", detail)
            continue
        info[jid][3] = x["post"]
        found = {}
        walk(x["model"], "", found)
        for n, lits in found.items():
            rep.count("embedding functions")
            if n not in embedded:
                rep.violation(f"{list(embedded)} ({cfg}): bindings of {n} embed a source", detail)
        for n, src in embedded.items():
            rep.count("sources compared")
            rep.count("characters compared", len(src))
            if n not in found:
                rep.violation(f"{n} ({cfg}): the source is not embedded", detail)
            elif src not in found[n]:
                near = max(found[n], key=len, default="")
                k = next((k for k, (a, b) in enumerate(zip(src, near)) if a != b), min(len(src), len(near)))
                rep.violation(f"{n} ({cfg}): the embedded source differs at {k}: {near[max(0, k - 20):k + 40]!r} instead of {src[max(0, k - 20):k + 40]!r}", detail)
        if (cfg is None or cfg["generate_functions"]) and set(embedded) <= set(found):
            good.append((jid, oracle.shape(x["model"])))
        rep.sample("embedded", {"modules": list(embedded), "also": plain, "configuration": cfg, "source": next(iter(embedded.values()))[:200]}, 6)
    per = 12
    outs = v.pmap(lambda k: program(rep, good[k:k + per], info, root, f"hp{k}"), range(0, len(good), per))
    for o in outs:
        for what, detail in o:
            rep.violation(what, detail)


def walk(items, path, out):
    for it in items:
        if it["kind"] == "mod":
            n = it["name"][2:] if it["name"].startswith("r#") else it["name"]
            walk(it["items"], f"{path}.{n}" if path else n, out)
        elif it["kind"] == "fn" and it["name"] == EMBED:
            out.setdefault(path, []).extend(it["lits"])


def program(rep, group, info, root, tag):
    d = v.workdir()
    out = []
    live = list(group)
    while live:
        prog = rustgen.Program()
        mods = []
        for jid, sh in live:
            g = prog.add_gen(f"{d}/{jid}.rs", sh, lambda e: False)
            for m in sh.walk():
                name = ".".join(x[2:] if x.startswith("r#") else x for x in m.path)
                if EMBED in m.fns and "last" in m.fns and name in info[jid][0]:
                    base = "::".join((f"g{g}",) + m.path)
                    prog.add_path(g, {"kind": "embed", "mod": list(m.path), "name": EMBED}, m.fns[EMBED], f"{base}::{EMBED}")
                    prog.add_path(g, {"kind": "fn", "mod": list(m.path), "name": "last"}, m.fns["last"], f"{base}::last")
                    src = info[jid][0][name]
                    k = int(src[src.rindex("return a + ") + 11:].split()[0])
                    mods.append({"i": jid, "name": name, "src": src, "entry": len(prog.entries) - 2, "last": len(prog.entries) - 1, "k": k, "origin": info[jid][3][name]})
        ok, msg, exe = prog.build(tag)
        if ok:
            break
        bad = [j for j, _ in live if f"/{j}.rs" in msg] or [j for j, _ in live]
        for j in bad:
            out.append((f"{list(info[j][0])}: the bindings do not compile: {[x for x in msg.splitlines() if 'error' in x][:3]}"[:800], {"sources": info[j][0], "rustc": msg[:3000]}))
        live = [x for x in live if x[0] not in bad]
    if not live:
        return out
    # equal names need interpreters of their own; parents come first
    rounds = []
    for jid, _ in live:
        own = [m for m in mods if m["i"] == jid]
        names = {m["name"] for m in own}
        rd = next((x for x in rounds if not names & {m["name"] for m in x}), None)
        if rd is None:
            rounds.append(rd := [])
        rd += own
    rounds = [sorted(x, key=lambda m: m["name"].count(".")) for x in rounds if x]
    for k, rd in enumerate(rounds):
        cf, of = os.path.join(d, f"{tag}-{k}.json"), os.path.join(d, f"{tag}-{k}.out")
        with open(cf, "w") as f:
            json.dump({"root": root, "modules": rd}, f)
        p = execute.run_exe(exe, SCRIPT, [cf, of])
        if not os.path.exists(of):
            out.append((f"{[m['name'] for m in rd]}: using the embedded modules failed: {p.stderr[-500:]}", {"stderr": p.stderr[-3000:], "sources": {m["name"]: m["src"] for m in rd}}))
            continue
        o = json.load(open(of))
        rep.count("modules recreated in fresh interpreters", len(rd))
        rep.count("attributes compared with the source", o["n"])
        for j, what in o["bad"]:
            out.append((what, {"sources": info[j][0]}))
    os.unlink(exe)
    return out


def generated(rep, r):
    """Random modules with bindings of all kinds, all of which must work after embedding."""
    w = world.World("em", 96 if v.THOROUGH else 56, opts={"mods": 0, "private_mods": 0})
    sources = {}
    for n in list(w.pkgs):
        pkg = w.pkgs[n]
        if pkg["order"] != [n]:
            del w.pkgs[n]
            continue
        sources[n] = pygen.emit_module(pkg, n).replace("import vrec as _v\n", "import vrec as _v\n_v.COUNT[__name__] = _v.COUNT.get(__name__, 0) + 1\n", 1)
        p = os.path.join(w.root, n)
        if os.path.isdir(p):
            shutil.rmtree(p)
        for ext in (".py",):
            if os.path.exists(p + ext):
                os.unlink(p + ext)
    rep.count("random modules embedded", len(w.pkgs))

    def extra(prog, g, exp, sh):
        for m in sh.walk():
            if EMBED in m.fns:
                base = "::".join((f"g{g}",) + m.path)
                prog.add_path(g, {"kind": "embed", "mod": list(m.path), "name": EMBED}, m.fns[EMBED], f"{base}::{EMBED}")

    execute.run_world(rep, w, ["fn", "new", "inst", "call", "class", "static", "vget", "vset", "pget", "pset"], rounds=2, per=4, extra=extra,
                      conf={"first_import": False}, tag="em", gen={"steps": lambda n: [{"op": "str", "v": n, "src": sources[n]}]})


def cold_starts(rep, r, root):
    """Sources given before anything else has started Python (as in a build script)."""
    one = lambda n, k=0: {"op": "str", "v": n, "src": source(r, n, k)}
    jobs = []
    for i in range(40 if v.THOROUGH else 12):
        steps = [one(f"coldemb{i}x{k}", k) for k in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.3:
            steps.append({"op": "name", "v": r.choice(["json", "string", "onpath"])})
        if r.random() < 0.3:
            steps.append({"op": "clone"})
        jobs.append({"id": f"embedded first {i}: {[s.get('v', s['op']) for s in steps]}", "steps": steps})
    cold.watch(rep, jobs, root)


def check(rep):
    rep.rule = (
        "modules are given as source made of hostile text and of random items; the literal in the bindings must equal the source, and in a fresh interpreter the compiled"
        " embedding function must execute it once and recreate a module with the content of that source, whose bindings work; a case is a distinct set of sources or binding"
    )
    v.build_drv()
    r = v.rng("c13")
    root = os.path.join(v.workdir(), "py-h")
    pygen.write_recorder(root)
    hostile(rep, r, root)
    generated(rep, r)
    cold_starts(rep, v.rng("c13-cold"), root)


v.main("C13", check)
