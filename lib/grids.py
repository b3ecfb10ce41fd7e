"""Packages that systematically enumerate annotations, instead of sampling them."""
import random

import pygen
import vcommon as v

CONTAINERS = [
    ("plain", lambda a: a), ("opt", lambda a: ["opt", a]), ("list", lambda a: ["list", a]), ("seq", lambda a: ["seq", a]),
    ("iterable", lambda a: ["iterable", a]), ("vtuple", lambda a: ["vtuple", a]), ("pair", lambda a: ["tuple", a, ["str"]]),
    ("triple", lambda a: ["tuple", ["int"], a, a]), ("single", lambda a: ["tuple", a]), ("dict", lambda a: ["dict", ["str"], a]),
    ("idict", lambda a: ["dict", ["int"], a]), ("optlist", lambda a: ["opt", ["list", a]]), ("listopt", lambda a: ["list", ["opt", a]]),
    ("listlist", lambda a: ["list", ["list", a]]), ("dictlist", lambda a: ["dict", ["str"], ["list", a]]), ("union", lambda a: ["union", a, ["list", a]]),
    ("set", lambda a: ["set", a]), ("frozenset", lambda a: ["frozenset", a]), ("optset", lambda a: ["opt", ["set", a]]),
    ("key", lambda a: ["dict", a, ["float"]]), ("optdict", lambda a: ["opt", ["dict", ["str"], a]]),
    ("quad", lambda a: ["tuple", a, a, a, a]), ("six", lambda a: ["list", ["tuple", a, a, a, a, a, a]]), ("opttuple", lambda a: ["opt", ["tuple", a, ["bytes"]]]), ("listfs", lambda a: ["list", ["frozenset", a]]),
]
HASH = ("bool", "int", "str", "float", "date", "ip4", "bytes", "path")


def packages(seed=0):
    """One package per leaf type (classes included); functions, methods, properties for all containers and spellings."""
    out = []
    leaves = [[x] for x in pygen.LEAVES] + [["cls", None]]
    for k, leaf in enumerate(leaves):
        r = random.Random(f"grid/{v.SEED}/{seed}/{k}")
        name = f"grid{k}"
        anns = []
        for cn, c in CONTAINERS:
            if cn in ("set", "frozenset", "optset", "key", "listfs") and leaf[0] not in HASH:
                continue
            if cn in ("opt", "optlist", "union", "listopt") and leaf[0] in ("none", "any", "object") and cn != "optlist":
                continue
            anns.append(c(leaf))
        out.append(package(r, name, leaf, anns))
    return out


# Classes derived from builtin types: base class, body, expression for an instance of the class `c`
DERIVED = [
    ("int", [], "c(5)"), ("str", [], "c('größe')"), ("float", [], "c(2.5)"), ("bytes", [], "c(b'x')"), ("bytearray", [], "c(b'x')"), ("complex", [], "c(1, 2)"),
    ("list", [], "c([1, 2])"), ("dict", [], "c(a=1)"), ("set", [], "c({1})"), ("frozenset", [], "c({1})"), ("tuple", [], "c((1, 2, 3))"),
    ("_dt.date", [], "c(2020, 1, 2)"), ("_dt.datetime", [], "c(2020, 1, 2, 3)"), ("_dt.time", [], "c(1, 2)"), ("_dt.timedelta", [], "c(1)"), ("_dt.tzinfo", [], "c()"),
    ("_enum.IntEnum", ["A = 1", "B = 2"], "list(c)[1]"), ("_enum.IntFlag", ["A = 1", "B = 2"], "c(3)"), ("_enum.StrEnum", ["A = 'x'", "B = 'y'"], "list(c)[0]"), ("_enum.Enum", ["A = 1"], "list(c)[0]"),
    ("_enum.Flag", ["A = 1", "B = 4"], "c(5)"), ("_coll.OrderedDict", [], "c(a=1)"), ("_coll.defaultdict", [], "c(int)"), ("_coll.Counter", [], "c('abca')"), ("_coll.UserDict", [], "c()"), ("_coll.deque", [], "c([1])"),
    ("_coll.namedtuple('Base', 'x y')", [], "c(1, 2)"), ("_t.NamedTuple", ["x: int", "y: str = ''"], "c(1)"), ("type", [], "c('X', (), {})"), ("_ip.IPv4Address", [], "c('1.2.3.4')"), ("_pl.PurePosixPath", [], "c('/x')"),
    ("_t.List[int]", [], "c([1])"), ("_t.Dict[str, int]", [], "c(a=1)"), ("list[str]", [], "c(['a'])"), ("Exception", [], "c('x')"), ("str, _enum.Enum", ["A = 'x'"], "list(c)[0]"),
]


def derived(seed=0):
    """One package per base class: annotations that name the derived classes."""
    out = []
    for k, (base, body, make) in enumerate(DERIVED):
        r = random.Random(f"derived/{v.SEED}/{seed}/{k}")
        anns = [c(["cls", None]) for cn, c in CONTAINERS if cn not in ("set", "frozenset", "optset", "key", "listfs")]
        out.append(package(r, f"derived{k}", ["cls", None], anns, base, body, make))
    return out


def package(r, name, leaf, anns, base_src=None, body=(), make=None):
    o = pygen.Opts(doc=0.0)
    base = {"doc": None, "eager": (), "all": None, "private": False}
    other = {**base, "full": f"{name}.other", "name": "other", "pkg": False, "subs": [], "depth": 1, "items": [], "deps": []}
    root = {**base, "full": name, "name": name, "pkg": True, "subs": ["other"], "depth": 0, "items": [], "deps": []}
    remote = [f"{name}.other", "Remote"]
    local = [name, "Local"]
    plain = {"k": "cls", "doc": None, "bases": [], "init": None, "methods": [], "props": [], "attrs": [], "nested": [], "flavor": "plain", "private": []}
    kcls = {**plain, "base_src": base_src, "body": list(body), "make": make} if base_src else plain
    other["items"].append({**kcls, "n": "Remote", "full": f"{name}.other"})
    root["items"].append({**kcls, "n": "Local", "full": name})
    names = {tuple(remote): "_c0", tuple(local): "Local"}
    root["deps"].append([f"{name}.other", "Remote", "_c0"])
    methods, props = [], []
    i = 0

    def subst(a, c):
        return ["cls", c] if a[0] == "cls" else [a[0]] + [subst(x, c) for x in a[1:]]

    for a0 in anns:
        for c in ([local, remote] if leaf[0] == "cls" else [None]):
            a = subst(a0, c) if c else a0
            for style in ("typing", "builtin", "string"):
                if style == "string" and not pygen.string_ok(a):
                    continue
                src = repr(pygen.render_ann(r, a, "builtin", names)) if style == "string" else pygen.render_ann(r, a, style, names)
                rec = {"ann": a, "style": style, "src": src}
                kind = r.choice(["pk", "po", "ko"])
                root["items"].append({"k": "fn", "n": f"fn{i}", "id": f"{name}:fn{i}", "flavor": "def", "doc": None, "ret": rec,
                                      "params": [{"kind": kind, "n": "x", "ann": rec, "default": None}]})
                if style == "typing" or r.random() < 0.3:
                    mk = r.choice(["inst", "static", "class"])
                    methods.append({"n": f"m{i}", "mk": mk, "params": [{"kind": kind, "n": "x", "ann": rec, "default": None}], "ret": rec,
                                    "doc": None, "id": f"{name}:Holder.m{i}", "self": "self", "deco": False})
                    props.append({"n": f"p{i}", "get": rec, "getdoc": None, "id": f"{name}:Holder.p{i}",
                                  "set": {"ann": r.choice([rec, None]), "doc": None, "param": "value"}})
                i += 1
    root["items"].append({**plain, "n": "Holder", "full": name, "methods": methods, "props": props})
    return {"name": name, "mods": {f"{name}.other": other, name: root}, "order": [f"{name}.other", name], "seed": "grid"}


# ---------------------------------------------------------------- deeply nested generics
TEXT_LEAF = {"int": ["int"], "str": ["str"], "float": ["float"], "bool": ["bool"], "bytes": ["bytes"], "date": ["datetime.date"], "datetime": ["datetime.datetime"],
             "ip4": ["ipaddress.IPv4Address"], "path": ["pathlib.Path", "os.PathLike"], "any": ["Any", "typing.Any"]}


def text(r, a):
    """An annotation as text, the way it is written in a string (or kept by postponed evaluation)."""
    k = a[0]
    sub = [text(r, x) for x in a[1:]]
    if k in TEXT_LEAF:
        return r.choice(TEXT_LEAF[k])
    if k in ("seq", "iterable"):
        return f"{r.choice(['', 'typing.', 'collections.abc.'])}{'Sequence' if k == 'seq' else 'Iterable'}[{sub[0]}]"
    if k == "opt":
        return r.choice([f"{sub[0]} | None", f"None | {sub[0]}"])
    return f"{'tuple' if k == 'vtuple' else k}[{r.choice([', ', ', ', ',', ' , ']).join(sub + (['...'] if k == 'vtuple' else []))}]"


def trees(r, thorough):
    """All generics over generics of small arity, and random deeper ones."""
    leaf = [["int"], ["str"]]
    one = leaf + [["list", ["int"]], ["dict", ["str"], ["int"]], ["tuple", ["int"], ["str"]], ["tuple", ["int"], ["str"], ["int"]], ["set", ["str"]], ["vtuple", ["int"]]]
    out = [["tuple", a, b] for a in one for b in one] + [["tuple", a, b, c] for a in one for b in one for c in one]
    out += [[k, a] for k in ("list", "seq", "iterable", "vtuple") for a in one] + [["dict", ["str"], a] for a in one] + [["dict", ["int"], ["dict", ["str"], a]] for a in one]

    def rand(d, hashable=False):
        if d == 0 or hashable or r.random() < 0.2:
            return [r.choice([k for k in TEXT_LEAF if not hashable or k in ("int", "str", "bool", "path", "ip4")])]
        k = r.choice(["list", "seq", "iterable", "vtuple", "tuple", "tuple", "tuple", "dict", "dict", "set", "frozenset"])
        if k == "tuple":
            return ["tuple"] + [rand(d - 1) for _ in range(r.choice([2, 2, 3, 3, 4, 5, 12, 13]))]
        if k == "dict":
            return ["dict", rand(0, r.random() < 0.8), rand(d - 1)]
        return [k, rand(d - 1, k in ("set", "frozenset"))]

    for _ in range(4000 if thorough else 700):
        t = rand(r.randint(2, 4))
        if len(repr(t)) < 1500:
            out.append(["opt", t] if r.random() < 0.12 and t[0] != "any" else t)
    return out


def nested(seed=0):
    """Packages whose functions take and return nested generics (only the types are compared)."""
    r = random.Random(f"nested/{v.SEED}/{seed}")
    ts = trees(r, v.THOROUGH)
    out = []
    for style in ("string", "builtin", "typing"):
        use = ts if style == "string" else r.sample(ts, len(ts) // 3)
        for k in range(0, len(use), 120):
            name = f"nest{style[0]}{k}"
            m = {"doc": None, "eager": (), "all": None, "private": False, "full": name, "name": name, "pkg": False, "subs": [], "depth": 0, "items": [], "deps": []}
            for i, a in enumerate(use[k:k + 120]):
                src = repr(text(r, a)) if style == "string" else pygen.render_ann(r, a, style, {})
                rec = {"ann": a, "style": style, "src": src}
                ret = r.random() < 0.5
                m["items"].append({"k": "fn", "n": f"fn{i}", "id": f"{name}:fn{i}", "flavor": "def", "doc": None, "ret": rec if ret else None,
                                   "params": [] if ret else [{"kind": r.choice(["pk", "ko"]), "n": "x", "ann": rec, "default": None}]})
            out.append({"name": name, "mods": {name: m}, "order": [name], "seed": "nested"})
    return out
