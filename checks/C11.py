import itertools
import json
import os
import pkgutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import oracle
import pygen
import realmods
import vcommon as v
import world

STD = ["json", "json.decoder", "json.tool", "email", "email.mime", "email.mime.text", "xml.etree.ElementTree", "xml", "concurrent.futures", "collections.abc",
       "logging", "logging.handlers", "importlib.metadata", "importlib", "urllib.request", "urllib", "os.path", "http.client"]

BUILTIN = """math cmath time os select socket sqlite3 zlib bz2 lzma array itertools functools operator struct datetime decimal collections io mmap signal resource termios fcntl pwd grp
binascii marshal gc errno faulthandler sys atexit unicodedata hashlib hmac ssl random re string textwrap types typing threading queue json csv pickle copy heapq bisect contextvars
asyncio.events asyncio.tasks xml.etree.ElementTree xml.parsers.expat ctypes zoneinfo statistics fractions numbers abc ast symtable tokenize inspect subprocess tempfile shutil pathlib calendar
configparser argparse logging email.message http.client urllib.request ipaddress uuid enum dataclasses weakref warnings traceback tracemalloc multiprocessing.shared_memory concurrent.futures""".split()


def public(full):
    return not any(s.startswith("_") for s in full.split("."))


def confusable(r, root, names):
    """A package whose modules have such names, at several levels: ({file: source}, modules)."""
    files, full = {}, []
    body = lambda n: f"class C:\n    def m(self, a: int) -> 'C': ...\ndef f_{len(full)}(a: C) -> C: ...\nv_{len(full)} = {len(full)}\n"

    def rec(path, depth):
        full.append(path)
        subs = r.sample(names, r.randint(2, len(names))) if depth < 2 and (depth == 0 or r.random() < 0.6) else []
        p = path.replace(".", "/")
        files[f"{p}/__init__.py" if subs else f"{p}.py"] = body(path)
        for s in subs:
            rec(f"{path}.{s}", depth + 1)

    rec(root, 0)
    return files, full


def check(rep):
    rep.rule = (
        "sets of modules (nested, overlapping, duplicated, of several packages) are requested in all orders (random ones for more than four modules), through names,"
        " module objects and lists; results must be identical for every order, equal to the union known by construction and, without shared packages, to the"
        " separate results; a case is a distinct (configuration, sequence of requests)"
    )
    v.build_drv()
    r = v.rng("c11")
    w = world.World("mg", 200 if v.THOROUGH else 60, profiles=["default", "deep", "exports", "classes", "weird", "repeats", "confusing", "parallel"], opts={"mods": 6})
    names = list(w.pkgs)
    jobs, info, groups = [], {}, {}

    def add(key, what, seq, cfg, form="name"):
        jid = f"{key} {what}"
        if jid in info:
            return
        if form == "names":
            steps = [{"op": "names", "v": seq}]
        elif form == "module":
            steps = [{"op": "module" if i % 2 else "name", "v": x} for i, x in enumerate(seq)]
        elif form == "modules":
            steps = [{"op": "modules", "v": seq}]
        else:
            steps = [{"op": "name", "v": x} for x in seq]
        jobs.append({"id": jid, "sys_path": [realmods.SITE] if key.startswith("std-third") else [w.root], "steps": steps, "cfg": cfg, "bodies": True})
        info[jid] = (key, what, seq, cfg)
        groups.setdefault(key, []).append(jid)

    def orders(seq):
        if len(seq) <= (4 if v.THOROUGH else 3):
            return [list(p) for p in itertools.permutations(seq)]
        out = [list(reversed(seq)), sorted(seq), sorted(seq, key=lambda x: (-x.count("."), x))]
        for _ in range(14 if v.THOROUGH else 5):
            p = list(seq)
            r.shuffle(p)
            out.append(p)
        return out

    def variants(key, seq, cfg):
        """All requests that must give the same result as `seq`."""
        add(key, "base", seq, cfg)
        for k, p in enumerate(orders(seq)):
            add(key, f"order {k}", p, cfg, ["name", "names", "module", "modules"][k % 4])
        dup = seq + [r.choice(seq) for _ in range(1 + r.randrange(3))]
        add(key, "duplicates 0", dup, cfg)
        r.shuffle(dup)
        add(key, "duplicates 1", dup, cfg, "names")
        add(key, "duplicates 2", [x for x in seq for _ in range(2)], cfg)
        if cfg is None or cfg.get("traverse_submodules", True):
            # what is already contained in an enclosing package adds nothing (unless filtered on the way)
            have = set(seq)
            subs = [m for s in seq if s.split(".")[0] in w.pkgs for m in oracle.Oracle(w.pkgs[s.split(".")[0]], [s], cfg).present if m not in have]
            if subs:
                for k in range(3):
                    more = seq + r.sample(sorted(set(subs)), min(len(set(subs)), 2))
                    r.shuffle(more)
                    add(key, f"overlap {k}", more, cfg)

    for i, n in enumerate(names):
        mods = [m for m in w.pkgs[n]["order"] if public(m)]
        subs = [m for m in mods if m != n]
        for k in range(3):
            cfg = None
            if k == 1:
                cfg = {"traverse_submodules": False}
            elif k == 2:
                cfg = {s: r.random() < 0.6 for s in ("generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs")}
                cfg["traverse_submodules"] = r.random() < 0.5
            pool = subs if k == 0 and subs else mods
            seq = r.sample(pool, min(len(pool), r.choice([1, 2, 3, 3, 4, 6] if v.THOROUGH else [1, 2, 3, 3, 3, 5])))
            if k == 0 and i % 3 == 0 and n not in seq:
                seq.append(n)
            if k == 0 and i % 3 == 1 or k == 2:
                other = r.choice([x for x in names if x != n])
                omods = [m for m in w.pkgs[other]["order"] if public(m)]
                seq += r.sample(omods, min(len(omods), 2))
            variants(f"{n}/{k}", seq, cfg)
            if len({s.split(".")[0] for s in seq}) > 1:
                for root in {s.split(".")[0] for s in seq}:
                    add(f"{n}/{k} apart {root}", "apart", [s for s in seq if s.split(".")[0] == root], cfg)
    for k in range(24 if v.THOROUGH else 6):
        variants(f"std{k}", r.sample(STD, 3), {"traverse_submodules": False} if k % 2 else None)
    for n in BUILTIN:
        # signatures that are given as text: everything in them is made anew each time
        add(f"std-{n}", "base", [n], {"traverse_submodules": False})
        add(f"std-{n}", "duplicates 0", [n, n], {"traverse_submodules": False}, r.choice(["name", "names", "module", "modules"]))
    for n in realmods.third():
        subs = sorted(x.name for x in pkgutil.iter_modules([os.path.join(realmods.SITE, n)]) if not x.name.startswith("_"))
        if not v.THOROUGH and r.random() < 0.6:
            continue
        seq = r.sample([f"{n}.{s}" for s in subs], min(len(subs), 3)) + ([n] if len(subs) < 2 or r.random() < 0.4 else [])
        cfg = r.choice([None, {"traverse_submodules": False}])
        add(f"std-third-{n}", "base", seq, cfg)
        for k, form in enumerate(["names", "name"]):
            r.shuffle(seq)
            add(f"std-third-{n}", f"order {k}", list(seq), cfg, form)
        add(f"std-third-{n}", "duplicates 0", seq + seq[:1], cfg)
    for i in range(24 if v.THOROUGH else 8):
        # names that are easily confused with each other, requested alternately
        key = f"std-zzsame{i}"
        sames = r.sample(["node", "Node", "NODE", "nOde", "node_", "_node", "node2", "node10", "no", "n", "nod", "node_a", "nodes", "ñode", "type", "Type", "r_type", "match", "Match", "self", "größe", "GRÖSSE", "Größe", "a1", "a01", "ａ"],
                         r.randint(3, 6)) if i else ["node", "Node", "NODE", "node_"]
        files, full = confusable(r, f"zzsame{i}", sames)
        for f, t in files.items():
            f = os.path.join(w.root, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as o:
                o.write(t)
        full = [m for m in full if public(m)]
        cfg = r.choice([None, None, {"traverse_submodules": False}])
        seq = r.sample(full, min(len(full), r.randint(2, 4)))
        variants(key, seq, cfg)
        add(key, "duplicates 3", seq + seq, cfg)
        add(key, "duplicates 4", seq + seq[::-1] + seq, cfg, "names")
        add(key, "duplicates 5", seq * 3, cfg, "modules")
    # one process handles all orders of a request, in an order that varies
    batches = []
    for key, ids in groups.items():
        batches.append([next(j for j in jobs if j["id"] == i) for i in ids]) if False else None
    byid = {j["id"]: j for j in jobs}
    for key, ids in groups.items():
        ids = list(ids)
        r.shuffle(ids)
        half = len(ids) // 2
        for part in (ids[:half], ids[half:]):
            if part:
                batches.append([byid[i] for i in part])
    res = v.run_drv(batches)
    for key, ids in groups.items():
        want = None
        for jid in ids:
            _, what, seq, cfg = info[jid]
            x = res[jid]
            pk = key.split("/")[0]
            detail = {"requests": seq, "configuration": cfg, "what": what, **(w.detail(pk) if pk in w.pkgs else {})}
            if x["status"] in ("pre_error", "drv_panic"):
                raise v.Infra(str(x))
            rep.case((seq, cfg))
            rep.count("requests: " + what.rstrip(" 0123456789"))
            if x["status"] != "ok":
                rep.violation(f"{seq} ({cfg}): no bindings: {str(x)[:300]}", detail)
                continue
            if what.split()[0] in ("base", "apart", "overlap") and not key.startswith("std"):
                tree(rep, w, seq, cfg, x["model"], detail)
            if want is None:
                want = canonical(x["model"])
                rep.sample("requests", {"requests": seq, "configuration": cfg, "bytes": len(want)}, 8)
            else:
                got = canonical(x["model"])
                rep.count("results compared")
                if want != got:
                    rep.violation(f"the result depends on the requests ({what}): {info[ids[0]][2]} versus {seq}: {where(want, got)}", detail)
        apart = [i for i in groups if i.startswith(key + " apart ")]
        if apart and want is not None:
            parts = {g.rsplit(" ", 1)[1]: res[groups[g][0]] for g in apart}
            if all(p["status"] == "ok" for p in parts.values()):
                rep.count("joint results compared with separate ones")
                joint = {m["name"]: m for m in res[ids[0]]["model"]}
                for root, p in parts.items():
                    sep = {m["name"]: m for m in p["model"]}
                    for name, m in sep.items():
                        if name not in joint or canonical(joint[name]) != canonical(m):
                            rep.violation(f"{info[ids[0]][2]} ({info[ids[0]][3]}): module {name} differs from the one that is generated separately", {"requests": info[ids[0]][2], "separately": m, "jointly": joint.get(name)})


def tree(rep, w, seq, cfg, model, detail):
    """The union of the contributions of every requested package."""
    roots = {}
    for s in seq:
        roots.setdefault(s.split(".")[0], []).append(s)
    act = oracle.shape(model)
    exp = oracle.Node("")
    for root, reqs in roots.items():
        exp.mods.update(oracle.Oracle(w.pkgs[root], reqs, cfg).tree())
    bad = list(act.odd)
    oracle.diff_structure(exp, act, bad)
    n = oracle.count_items(exp)
    n += oracle.diff_types(exp, act, act, bad)
    n += oracle.diff_uses(exp, act, act, bad)
    if cfg is None or cfg.get("generate_docs", True):
        n += oracle.diff_docs(exp, act, bad)
    rep.count("items compared with the union known by construction", n)
    for x in bad[:3]:
        rep.violation(f"{seq} ({cfg}): {x}", detail)


def canonical(m):
    """The items irrespective of their order (within the same module or implementation)."""
    def c(x):
        if isinstance(x, dict):
            x = {k: c(y) for k, y in x.items()}
            for k in ("items", "uses"):
                if k in x:
                    x[k] = sorted(x[k], key=lambda y: json.dumps(y, sort_keys=True))
            return x
        if isinstance(x, list):
            return [c(y) for y in x]
        return x
    return json.dumps(c({"items": m} if isinstance(m, list) else m), sort_keys=True, ensure_ascii=False)


def where(a, b):
    k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return f"...{a[max(0, k - 60):k + 80]!r} versus ...{b[max(0, k - 60):k + 80]!r}"


v.main("C11", check)
