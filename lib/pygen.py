"""Seeded generator of Python packages whose public structure is known by construction.

A package is a JSON-able dict:
  {"name", "mods": {full name: mod}, "order": [full names, dependencies first]}
  mod  = {"full", "name", "pkg", "doc", "items", "subs", "all", "eager", "private"}
  item = {"k": "fn" | "cls" | "var" | "tv" | "alias" | "import" | "other", "n": name, ...}
Every callable reports to the recorder module `vrec`, so that what really ran can be observed.
"""
import keyword
import os
import random
import zlib

from rustnames import BLOCKLIST, KEYWORDS, RESERVED, UNUTTERABLE
from rustnames import RAW as _RAW

# Rust keywords that are ordinary names in Python
RAW = [k for k in _RAW if not keyword.iskeyword(k)]

WORDS = (
    "alpha beta gamma delta omega north south river stone cloud ember frost glass honey iron jade kite lemon maple"
    " noble ocean pearl quartz raven solar tiger umber velvet willow xenon yarrow zephyr amber birch cedar dune echo"
    " fable grove harbor indigo juniper"
).split()
CWORDS = [w.capitalize() for w in WORDS]
CLASHY_FN = ["new", "call", "new1", "call1", "get_value", "set_value", "value", "set_alpha", "get_alpha", "alpha", "default",
             "clone", "into", "from_", "as_any", "extract", "len", "iter", "drop", "main", "self_", "unwrap", "bind"]
CLASHY_CLS = ["Option", "Result", "String", "Vec", "Box", "PyAny", "Python", "Bound", "Py", "Type", "Dict", "Error",
              "union", "default", "auto", "i32_", "Iterator", "Default", "Send", "PyResult"]
ODD = ["größe", "naïve", "данные", "变量", "trailing_", "x__y", "CamelFn", "UPPER", "a1b2", "_9" + "x"]
PARAM_WORDS = ["a", "b", "c", "x", "y", "z", "name", "value", "data", "key", "index", "size", "flag", "mode", "path",
               "py", "args_", "kw", "n", "cls", "other", "__x", "_y", "größe", "__internal__args", "__internal__kwargs",
               "p_a", "_py", "x_", "obj", "repr", "str", "result", "ident"]

LEAVES = ["bool", "int", "float", "str", "bytes", "bytearray", "any", "object", "date", "datetime", "time", "timedelta",
          "type", "callable", "complex", "slice", "ip4", "none", "bare_list", "bare_dict", "bare_set", "bare_tuple",
          "bare_frozenset", "path"]
# Leaves that arrive unchanged only as direct parameters, not inside of other generics
DIRECT_ONLY = set()
HASHABLE = ["bool", "int", "str", "path"]


class Opts:
    """Generation options with defaults."""

    DEF = dict(
        mods=5, depth=3, items=(3, 8), w={"fn": 5, "cls": 3, "var": 3, "tv": 0.6, "alias": 0.5, "import": 2, "other": 0.7},
        ann=0.6, ann_depth=2, doc=0.5, weird_names=0.25, all=0.5, private=0.25, lazy=0.6, params=4, methods=4, props=2,
        attrs=1.5, strict_ann=True, inherit=0.4, leaves=LEAVES, str_ann=0.15, private_mods=0.3, class_flavors=True,
        fn_flavors=True, reexports=0.5, overwrite=0.0, unutterable=0.05, raising=True, bad_sub=0.0, doc_hard=0.5,
        clash=0.0, same_mods=0.0, confuse=0.0, parallel=False,
    )

    def __init__(self, base=None, **kw):
        base = base.d if isinstance(base, Opts) else (base or {})
        self.d = {**base, **kw}
        for k, v in {**self.DEF, **self.d}.items():
            setattr(self, k, v)


# ---------------------------------------------------------------- annotations
def gen_ann(r, o, classes, depth=None, nested=False, ret=False):
    depth = o.ann_depth if depth is None else depth
    if depth > 0 and r.random() < 0.5:
        k = r.choice(["list", "seq", "set", "frozenset", "dict", "tuple", "vtuple", "opt", "opt", "union", "iterable", "mapping1"])
        sub = lambda: gen_ann(r, o, classes, depth - 1, True, ret)
        if k in DIRECT_ONLY and nested and not ret:
            k = "list"
        if k in ("set", "frozenset"):
            el = [r.choice(HASHABLE + ["float", "date", "any"])]
            return [k, el]
        if k == "dict":
            key = [r.choice(HASHABLE + ["str", "float", "any"])]
            return ["dict", key, sub()]
        if k == "mapping1":
            return ["dict", [r.choice(HASHABLE)], sub()]
        if k == "tuple":
            return ["tuple"] + [sub() for _ in range(r.choice([1, 2, 2, 3, 4]))]
        if k == "opt":
            a = sub()
            return a if a[0] in ("opt", "any", "object", "none", "union") else ["opt", a]
        if k == "union":
            seen, out = set(), []
            for a in (sub(), sub(), sub()):
                if a[0] not in seen and a[0] not in ("opt", "none", "any", "object", "union"):
                    seen.add(a[0])
                    out.append(a)
            if len(out) < 2:
                return ["int"]
            return ["union"] + out
        return [k, sub()]
    if classes and r.random() < 0.3:
        return ["cls", r.choice(classes)]
    leaf = r.choice(o.leaves)
    return [leaf]


SRC = {
    "bool": "bool", "int": "int", "float": "float", "str": "str", "bytes": "bytes", "bytearray": "bytearray",
    "any": "_t.Any", "object": "object", "date": "_dt.date", "datetime": "_dt.datetime", "time": "_dt.time",
    "timedelta": "_dt.timedelta", "type": "_b.type", "complex": "complex", "slice": "slice", "ip4": "_ip.IPv4Address",
    "none": "None", "path": "_pl.Path", "bare_list": "list", "bare_dict": "dict", "bare_set": "set",
    "bare_tuple": "tuple", "bare_frozenset": "frozenset",
}


# Spellings of "any object" whose names are those of other types (see the recorder)
ALIASES = ["_v.Dict", "_v.Sequence", "_v.Sequence[_b.int]", "_v.Callable", "_v.Iterator", "_v.al_int", "_v.al_tuple", "_v.Mapping"]


def render_ann(r, a, style, names):
    """Python source of an annotation. style: typing | builtin | mixed."""
    k = a[0]
    s = style if style != "mixed" else r.choice(["typing", "builtin"])
    sub = lambda x: render_ann(r, x, style, names)
    if k == "cls":
        return names[tuple(a[1])]
    if k == "callable":
        return "_t.Callable[[int], str]" if s == "typing" else "_abc.Callable[..., int]"
    if k == "type" and s == "typing":
        return "_t.Type[int]"
    if k == "object":
        return r.choice(["object", "object", "object", *ALIASES])
    if k in SRC:
        return SRC[k]
    if k == "iterable":
        return f"{'_t' if s == 'typing' else '_abc'}.Iterable[{sub(a[1])}]"
    if k == "seq":
        return f"{'_t' if s == 'typing' else '_abc'}.Sequence[{sub(a[1])}]"
    if k in ("list", "set", "frozenset", "dict", "tuple", "vtuple"):
        base = {"vtuple": "tuple"}.get(k, k)
        if s == "typing":
            base = "_t." + {"list": "List", "set": "Set", "frozenset": "FrozenSet", "dict": "Dict", "tuple": "Tuple"}[base]
        inner = [sub(x) for x in a[1:]] + (["..."] if k == "vtuple" else [])
        return f"{base}[{', '.join(inner)}]"
    if k == "opt":
        x = sub(a[1])
        if s == "typing" or x.startswith(("'", '"')):
            return r.choice([f"_t.Optional[{x}]", f"_t.Union[{x}, None]", f"_t.Union[None, {x}]"])
        return r.choice([f"{x} | None", f"None | {x}"])
    if k == "union":
        xs = [sub(x) for x in a[1:]]
        if s == "typing":
            return f"_t.Union[{', '.join(xs)}]"
        return " | ".join(xs)
    raise ValueError(k)


def string_ok(a):
    """Annotations that are understood when they are written as a string of builtin names."""
    return all(
        (x[0] in ("bool", "int", "float", "str", "bytes", "bytearray", "list", "set", "frozenset", "dict", "tuple", "opt", "slice", "complex"))
        for x in walk_ann(a)
    )


def walk_ann(a):
    yield a
    if a[0] == "cls":
        return
    for x in a[1:]:
        yield from walk_ann(x)


def nested_union(a, top=True):
    if a[0] in ("opt", "union") and not top:
        return True
    return a[0] != "cls" and any(nested_union(x, False) for x in a[1:])


def make_ann(r, o, classes, names, ret=False):
    """Returns an annotation record or None: {"ann", "style", "src"}."""
    if r.random() >= o.ann:
        return None
    a = gen_ann(r, o, classes, ret=ret)
    style = r.choice(["typing", "builtin", "builtin", "mixed"])
    if r.random() < o.str_ann and string_ok(a):
        return {"ann": a, "style": "string", "src": repr(render_ann(r, a, "builtin", names))}
    return {"ann": a, "style": style, "src": render_ann(r, a, style, names)}


# ---------------------------------------------------------------- documentation
DOC_WORDS = WORDS + ["`code`", "the", "a", "of", "returns", "value", "x=1", "(see", "below)", "100%", "it's", "e.g.,"]
DOC_HARD = ['"quoted"', "'single'", "back\\slash", "{braces}", "{}", "*/", "/*", "//", "#[doc]", '"#', '"""', "größe", "日本語",
            "😀", "\\n", "\\", "%s", "$var", "&lt;", "<tag>", "r#\"raw\"#", "``double``", "```rust", "-->", "\u00a0nbsp",
            "\u2028sep", "a/b/c", "http://x.y/z/", "*args", "[link](x)", "|a|b|", "@param", ":type:", "~~~", "\u202ertl", "a\u2066b\u2069",
            "carriage\rreturn", "dos\r\nline", "\u200fmark\u200b", "esc\x1b[0m", "!bang", "*star", "\x0bvt"]


def gen_doc(r, o):
    if r.random() >= o.doc:
        return None
    lines = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        pool = DOC_WORDS + (DOC_HARD * 2 if r.random() < o.doc_hard else [])
        line = " ".join(r.choice(pool) for _ in range(r.randint(1, 6)))
        if r.random() < 0.15:
            line = ""
        if r.random() < 0.3:
            line = " " * r.randint(1, 8) + line
        if r.random() < 0.1:
            line = "\t" + line + "   "
        lines.append(line)
    doc = "\n".join(lines)
    if r.random() < 0.3:
        doc = "\n    " + doc + "\n    "
    if r.random() < 0.1:
        doc += r.choice(["/", " /", "//", "\n/"])
    if not doc.strip().strip("/").strip():
        return "Words."
    return "None" if r.random() < 0.02 else doc


# `__doc__` of other types than strings, which is no documentation
RAW_DOCS = ["5", "_b.object()", "b'bytes'", "('a', 'b')", "_v.Opaque()", "_b.dict(a=1)", "['x']", "_b.property()", "_b.int", "True", "''"]


def raw_doc(r, it):
    if it["doc"] is None and r.random() < 0.05:
        it["rawdoc"] = r.choice(RAW_DOCS)


# ---------------------------------------------------------------- names
# Names that are easily taken for each other
CONFUSING = ["n", "N", "nn", "nN", "Nn", "NN", "n_", "n1", "n01", "n10", "n_1", "node", "Node", "NODE", "nOde", "node_", "Node_", "nod", "nodes", "no", "größe", "Größe", "GRÖSSE", "ñode", "nO", "No", "n__", "n__n"]


class Names:
    def __init__(self, r, o, taken=()):
        self.r, self.o, self.taken = r, o, set(taken)

    def pick(self, pools, suffix=True):
        if self.o.confuse and self.r.random() < self.o.confuse:
            left = [n for n in CONFUSING if n not in self.taken]
            if left:
                pools = [left]
        for _ in range(60):
            n = self.r.choice(self.r.choice(pools))
            if n not in self.taken and n not in RESERVED and n not in BLOCKLIST:
                self.taken.add(n)
                return n
        i = 0
        while True:
            n = f"{self.r.choice(WORDS)}_{i}"
            if n not in self.taken:
                self.taken.add(n)
                return n
            i += 1

    def fn(self):
        if self.o.clash and self.r.random() < self.o.clash:
            # names that the accessors, constructors and calls of each other need
            stem = self.r.choice(["new", "call", "alpha", "fn", "crate"])
            return self.pick([[stem, f"get_{stem}", f"set_{stem}", f"{stem}1", f"get_get_{stem}", f"set_set_{stem}", f"get_{stem}1", f"get_set_{stem}"]])
        pools = [WORDS]
        if self.r.random() < self.o.weird_names:
            pools = [RAW, CLASHY_FN, ODD[:-1]]
            if self.r.random() < self.o.unutterable:
                pools = [[u for u in UNUTTERABLE if u != "_"]]
        return self.pick(pools)

    def cls(self):
        for _ in range(50):
            pools = [CWORDS]
            if self.r.random() < self.o.weird_names:
                pools = [CLASHY_CLS, RAW, WORDS]
                if self.r.random() < self.o.unutterable:
                    pools = [["Self"]]
            n = self.pick(pools)
            if f"{n}Methods" not in self.taken:
                self.taken.add(f"{n}Methods")
                return n
        raise AssertionError

    def mod(self):
        if self.o.same_mods and self.r.random() < self.o.same_mods:
            # equal names in all branches and at all depths
            left = [n for n in ("core", "util", "alpha") if n not in self.taken]
            if left:
                return self.pick([left])
        pools = [WORDS]
        if self.r.random() < self.o.weird_names:
            pools = [RAW, ["io", "types", "abc", "core", "std", "alloc", "utils", "größe", "typing", "typing_"]]
        return self.pick(pools)


# ---------------------------------------------------------------- callables
# Names of the first parameters of methods
RECEIVERS = ("self",) * 6 + ("this", "zelf", "obj", "cls")


def gen_params(r, o, classes, names, n=None, in_class=False):
    n = r.randint(0, o.params) if n is None else n
    pool = Names(r, o)
    params = []

    if in_class:
        # Python mangles these names inside of classes
        pool.taken |= {n for n in PARAM_WORDS if n.startswith("__")}

    def pname():
        if r.random() < 0.25:
            return pool.pick([RAW, ["crate", "super", "Self", "_"]])
        return pool.pick([PARAM_WORDS])

    kinds = []
    n_pos = r.randint(0, n) if r.random() < 0.3 else 0
    n_kwo = r.randint(0, n - n_pos) if r.random() < 0.4 else 0
    n_pk = n - n_pos - n_kwo
    kinds = ["po"] * n_pos + ["pk"] * n_pk
    va = r.random() < 0.2
    kinds += ["va"] if va else []
    kinds += ["ko"] * n_kwo
    kinds += ["vk"] if r.random() < 0.2 else []
    has_default = False
    for kind in kinds:
        p = {"kind": kind, "ann": None, "default": None}
        if kind == "va":
            p["n"] = pool.pick([["args", "args", "rest", "values", "items", "type"]])
        elif kind == "vk":
            p["n"] = pool.pick([["kwargs", "kwargs", "options", "extra", "match"]])
        else:
            p["n"] = pname()
            p["ann"] = make_ann(r, o, classes, names)
            if kind in ("po", "pk"):
                if has_default or r.random() < 0.2:
                    has_default = True
                    p["default"] = r.choice(["None", "0", "'text'", "1.5", "()", "_v.SENTINEL"])
            elif r.random() < 0.4:
                p["default"] = r.choice(["None", "-1", "'k'", "_v.SENTINEL"])
        params.append(p)
    return params


def params_src(params, first=None, retann=None):
    out = [first] if first else []
    kinds = [p["kind"] for p in params]
    star = False
    for i, p in enumerate(params):
        if p["kind"] == "ko" and not star:
            if "va" not in kinds:
                out.append("*")
            star = True
        s = {"va": "*", "vk": "**"}.get(p["kind"], "") + p["n"]
        if p["ann"]:
            s += ": " + p["ann"]["src"]
        if p["default"] is not None:
            s += " = " + p["default"]
        out.append(s)
        if p["kind"] == "po" and (i + 1 == len(params) or kinds[i + 1] != "po"):
            out.append("/")
    return ", ".join(out)


def args_src(params):
    return "{" + ", ".join(f"{p['n']!r}: {p['n']}" for p in params) + "}"


FNWORDS = ["run", "do", "value", "Alpha", "data", "items_"]


def gen_fn(r, o, full, name, classes, names):
    fl = "def"
    if o.fn_flavors:
        fl = r.choices(["def", "partial", "deco", "rawdeco", "lambda", "async", "bound"], [14, 1, 1, 0.7, 0.7, 0.5, 1.2])[0]
    f = {"k": "fn", "n": name, "id": f"{full}:{name}", "flavor": fl}
    if fl == "bound":
        # a method of some object of the module; it carries its own name or that of something else
        f["inner"] = name if r.random() < 0.4 else r.choice(FNWORDS)
        f["how"] = r.choice(["inst", "inst", "class"])
    f["params"] = gen_params(r, o, classes, names)
    if fl == "lambda":
        for p in f["params"]:
            p["ann"] = None
    # Python mangles nothing at module level, but a partial binds its first positional parameter
    if fl == "partial" and not any(p["kind"] in ("po", "pk") for p in f["params"]):
        f["flavor"] = "def"
    f["ret"] = None if fl in ("lambda", "async") else make_ann(r, o, classes, names, ret=True)
    f["doc"] = gen_doc(r, o) if fl != "lambda" else None
    if fl in ("def", "deco", "async", "bound"):
        raw_doc(r, f)
    return f


VARS = [
    ("7", ["int"]), ("-3", ["int"]), ("True", ["bool"]), ("2.5", ["float"]), ("'text'", ["str"]), ("'größe'", ["str"]),
    ("b'xy'", ["bytes"]), ("[1, 'a']", ["bare_list"]), ("{'k': 1}", ["bare_dict"]), ("{1, 2}", ["bare_set"]),
    ("(1, 'a')", ["bare_tuple"]), ("frozenset([1])", ["bare_frozenset"]), ("None", ["any"]), ("_dt.date(2020, 1, 2)", ["date"]),
    ("_dt.datetime(2020, 1, 2, 3)", ["datetime"]), ("_dt.timedelta(1)", ["timedelta"]), ("1 + 2j", ["complex"]),
    ("slice(1, 2)", ["slice"]), ("bytearray(b'q')", ["bytearray"]), ("_v.Opaque()", ["any"]), ("...", ["any"]),
]


def gen_class(r, o, full, name, classes, names, bases_pool, pkg):
    c = {"k": "cls", "n": name, "doc": gen_doc(r, o), "bases": [], "init": None, "methods": [], "props": [], "attrs": [],
         "nested": [], "flavor": "plain", "full": full, "private": []}
    if o.class_flavors:
        c["flavor"] = r.choices(["plain", "exception", "abc", "dataclass", "slots"], [12, 1, 1, 1, 1])[0]
    fl = c["flavor"]
    if fl in ("plain", "slots") and bases_pool and r.random() < o.inherit:
        b = r.choice(bases_pool)
        c["bases"] = [b]
        c["flavor"] = fl = "plain"
    if fl == "dataclass" and c["doc"] is None:
        c["doc"] = "Data"
    inherited = effective_names(pkg, c)
    # members must not hide the names that annotations in the body of the class use
    nm = Names(r, o, names.values())
    nm.taken |= {"args", "with_traceback", "add_note"} if fl == "exception" else set()

    def member():
        if inherited and r.random() < 0.3:
            # override an inherited member of the same kind
            cand = sorted(n for n in inherited if n not in nm.taken)
            if cand:
                n = r.choice(cand)
                nm.taken.add(n)
                return n
        while True:
            n = nm.fn()
            if n not in inherited:
                return n

    cid = f"{full}:{name}"
    if fl == "dataclass":
        for _ in range(r.randint(1, 3)):
            n = member()
            if n in inherited or n in UNUTTERABLE or n.startswith("_"):
                continue
            a = None
            while a is None or nested_union(a["ann"]) and a["style"] != "typing":
                a = make_ann(r, Opts(o, ann=1.0, str_ann=0.0), classes, names)
            c["attrs"].append({"n": n, "field": a, "expr": None, "ann": None})
    elif r.random() < 0.6 or fl == "exception":
        c["init"] = {"params": gen_params(r, o, classes, names, in_class=True), "doc": gen_doc(r, o), "id": cid + ".__init__"}
    for _ in range(r.randint(0, o.methods)):
        n = member()
        if n in inherited and inherited[n] != "inst":
            continue
        mk = r.choices(["inst", "class", "static"], [6, 2, 2])[0] if n not in inherited else "inst"
        if any(m["n"] == n for m in c["methods"]):
            continue
        m = {"n": n, "mk": mk, "params": gen_params(r, o, classes, names, in_class=True), "ret": make_ann(r, o, classes, names, ret=True),
             "doc": gen_doc(r, o), "id": f"{cid}.{n}", "self": r.choice(RECEIVERS)}
        m["deco"] = r.random() < 0.08
        m["derived"] = r.random() < 0.25
        c["methods"].append(m)
    if r.random() < 0.25:
        c["methods"].append({"n": "__call__", "mk": "call", "params": gen_params(r, o, classes, names, in_class=True),
                             "ret": make_ann(r, o, classes, names, ret=True), "doc": gen_doc(r, o), "id": f"{cid}.__call__",
                             "self": r.choice(RECEIVERS), "deco": False, "bound": r.choice(["inst"] * 4 + ["static", "class"])})
    k = r.randint(0, int(o.props * 2)) if o.props else 0
    for _ in range(k):
        n = member()
        if n in inherited and inherited[n] != "prop":
            continue
        get = make_ann(r, o, classes, names, ret=True)
        p = {"n": n, "get": get, "getdoc": gen_doc(r, o), "set": None, "id": f"{cid}.{n}"}
        if r.random() < 0.6:
            p["set"] = {"ann": r.choice([get, make_ann(r, o, classes, names), None]), "doc": gen_doc(r, o),
                        "param": r.choice(["value", "v", "type", "x"])}
            if p["set"]["ann"] is get and get is not None and has_direct_only(get["ann"]):
                p["set"]["ann"] = None
        # (a property that is made from its accessors may have a docstring of its own)
        p["made"] = r.random() < 0.25
        p["del"] = r.random() < 0.25
        p["doc"] = gen_doc(r, o) if p["made"] and r.random() < 0.7 else None
        # (some can only be written)
        p["wo"] = bool(p["made"] and p["set"] and zlib.crc32(p["id"].encode()) % 4 == 0)
        if p["wo"]:
            p["get"] = p["getdoc"] = None
        c["props"].append(p)
    if fl not in ("slots", "dataclass"):
        for _ in range(r.randint(0, int(o.attrs * 2)) if o.attrs else 0):
            n = member()
            if n in inherited:
                continue
            e, a = r.choice(VARS)
            c["attrs"].append({"n": n, "field": None, "expr": e, "ann": a})
    if r.random() < o.private:
        c["private"].append(f"_{r.choice(WORDS)}")
    if r.random() < 0.15:
        c["nested"].append(nm.cls())
    r.shuffle(c["methods"])
    if fl in ("plain", "abc"):
        raw_doc(r, c)
    for m in c["methods"]:
        if not m["deco"]:
            raw_doc(r, m)
    return c


def has_direct_only(a, top=True):
    if not top and a[0] in ("bytes", "bytearray", "vtuple", "frozenset", "bare_frozenset", "path"):
        return True
    return a[0] != "cls" and any(has_direct_only(x, False) for x in a[1:])


def find_class(pkg, ref):
    full, name = ref
    for it in pkg["mods"][full]["items"]:
        if it["k"] == "cls" and it["n"] == name:
            return it
    raise KeyError(ref)


def mro(pkg, c):
    out = [c]
    for b in c["bases"]:
        out += mro(pkg, find_class(pkg, b))
    return out


def effective_names(pkg, c):
    """Inherited member name -> kind."""
    out = {}
    for k in mro(pkg, c)[1:]:
        for m in k["methods"]:
            out.setdefault(m["n"], m["mk"])
        for p in k["props"]:
            out.setdefault(p["n"], "prop")
        for a in k["attrs"]:
            out.setdefault(a["n"], "attr")
        for n in k["nested"]:
            out.setdefault(n, "nested")
    return out


# ---------------------------------------------------------------- packages
def gen_package(seed, name, opts=None):
    o = Opts(opts)
    r = random.Random(f"pkg/{seed}")
    pkg = {"name": name, "mods": {}, "order": [], "seed": str(seed)}

    # Shape of the tree
    root = {"full": name, "name": name, "pkg": True, "subs": [], "private": False, "depth": 0}
    mods = [root]
    taken = {name: set()}
    if o.parallel:
        # equal branches: all modules of a level have submodules of the same names
        level = [root]
        for depth in range(1, o.depth + 1):
            ns = r.sample(["core", "util", "alpha", "type", "Core", name], 2)
            ps, level = level, []
            for parent in ps:
                for n in ns:
                    if len(mods) > o.mods or n in parent["subs"]:
                        continue
                    m = {"full": f"{parent['full']}.{n}", "name": n, "pkg": depth < o.depth, "subs": [], "private": False, "depth": depth}
                    parent["subs"].append(n)
                    taken[parent["full"]].add(n)
                    taken[m["full"]] = set()
                    mods.append(m)
                    level.append(m)
    for _ in range(r.randint(max(0, o.mods - 3), o.mods)) if not o.parallel else ():
        parents = [m for m in mods if m["pkg"] and m["depth"] < o.depth]
        parent = r.choice(parents)
        nm = Names(r, o, taken[parent["full"]])
        n = nm.mod()
        private = parent["private"]
        if r.random() < o.private_mods * 0.5:
            n, private = "_p" + n, True
        elif r.random() < 0.05:
            n, private = r.choice(BLOCKLIST[1:]), True
            if n in taken[parent["full"]]:
                continue
        taken[parent["full"]] |= nm.taken | {n}
        m = {"full": f"{parent['full']}.{n}", "name": n, "pkg": r.random() < 0.45, "subs": [], "private": private,
             "depth": parent["depth"] + 1}
        parent["subs"].append(n)
        taken[m["full"]] = set()
        mods.append(m)

    def post(m):
        for s in m["subs"]:
            post(next(x for x in mods if x["full"] == f"{m['full']}.{s}"))
        pkg["order"].append(m["full"])

    post(root)
    byname = {m["full"]: m for m in mods}

    for full in pkg["order"]:
        m = byname[full]
        pkg["mods"][full] = m
        m["doc"] = gen_doc(r, o)
        raw_doc(r, m)
        m["items"], m["eager"], m["all"], m["deps"] = [], [], None, []
        # a class or function must not share the name of a submodule (unless overwriting is wanted)
        nm = Names(r, o, set(taken[full]))
        # classes defined before that may be used in annotations and as bases
        earlier = [f for f in pkg["order"] if f in pkg["mods"] and f != full and not full.startswith(f + ".")]
        avail = []
        for f in earlier:
            for it in pkg["mods"][f]["items"]:
                if it["k"] == "cls" and not pkg["mods"][f]["private"]:
                    avail.append((f, it["n"]))
        r.shuffle(avail)
        avail = avail[: r.choice([0, 1, 3] if not o.parallel else [1, 3, 5])]
        names = {}
        for i, c in enumerate(avail):
            names[c] = f"_c{i}"
            m["deps"].append([c[0], c[1], f"_c{i}"])
        local = []
        for _ in range(r.randint(*o.items)):
            kinds, ws = zip(*o.w.items())
            k = r.choices(kinds, ws)[0]
            classes = [list(c) for c in avail] + [list(c) for c in local]
            nm_all = {**names, **{c: c[1] for c in local}}
            if k == "fn":
                n = nm.fn()
                if r.random() < o.private * 0.5:
                    n = "_" + nm.pick([WORDS])
                m["items"].append(gen_fn(r, o, full, n, classes, nm_all))
            elif k == "cls":
                n = nm.cls()
                if r.random() < o.private * 0.4:
                    n = "_" + nm.pick([CWORDS])
                bases = [c for c in avail + local if find_class(pkg, c)["flavor"] in ("plain",)]
                c = gen_class(r, o, full, n, classes, nm_all, bases, pkg)
                m["items"].append(c)
                if not n.startswith("_"):
                    local.append((full, n))
                    # names seen at the definition of later items
            elif k == "var":
                n = nm.fn()
                if r.random() < o.private * 0.4:
                    n = "_" + nm.pick([WORDS])
                inst = [c for c in local if find_class(pkg, c)["flavor"] == "plain" and not any(x["init"] for x in mro(pkg, find_class(pkg, c)))]
                if inst and r.random() < 0.25:
                    c = r.choice(inst)
                    m["items"].append({"k": "var", "n": n, "expr": f"{c[1]}()", "ann": ["cls", list(c)]})
                else:
                    e, a = r.choice(VARS)
                    m["items"].append({"k": "var", "n": n, "expr": e, "ann": a})
            elif k == "tv":
                n = nm.pick([CWORDS, ["T", "K", "V", "S_co"]])
                e = r.choice([f"_t.TypeVar({n!r})", f"_t.NewType({n!r}, int)", "list[int]", "int | None", f"_t.ParamSpec({n!r})"])
                m["items"].append({"k": "tv", "n": n, "expr": e})
            elif k == "alias":
                cand = [it for it in m["items"] if it["k"] in ("cls", "fn") and not it["n"].startswith("_")
                        and it.get("flavor") not in ("partial",)]
                if cand:
                    src = r.choice(cand)
                    n = nm.cls() if src["k"] == "cls" else nm.fn()
                    if n not in UNUTTERABLE:
                        m["items"].append({"k": "alias", "n": n, "of": src["n"]})
            elif k == "import":
                it = gen_import(r, o, pkg, m, nm, byname)
                if it:
                    m["items"].append(it)
            elif k == "other":
                m["items"].append(gen_other(r, nm))
        # which submodules does the package import itself?
        for s in m["subs"]:
            if r.random() >= o.lazy:
                m["eager"].append(s)
        if r.random() < o.all:
            pool = [it["n"] for it in m["items"]] + m["subs"]
            pool = sorted(set(pool))
            m["all"] = r.sample(pool, r.randint(0, len(pool)))
            if r.random() < 0.3:
                m["all"] = [it["n"] for it in m["items"] if not it["n"].startswith("_")] + list(m["subs"])
            if r.random() < 0.1:
                m["all"].append("missing_name")
    return pkg


def gen_import(r, o, pkg, m, nm, byname):
    full = m["full"]
    mine = [f for f in pkg["mods"] if f.startswith(full + ".")]
    others = [f for f in pkg["mods"] if f != full and not full.startswith(f + ".") and not f.startswith(full + ".")]
    choice = r.random()
    pool = mine if choice < o.reexports else others if choice < o.reexports + 0.2 else None
    if pool:
        f = r.choice(pool)
        if r.random() < 0.2:
            n = nm.pick([WORDS])
            return {"k": "import", "what": "mod", "origin": [f, None], "n": n, "src": f"import {f} as {n}" }
        cand = [it for it in pkg["mods"][f]["items"]
                if it["k"] == "cls" or it["k"] == "fn" and it["flavor"] in ("def", "deco", "async", "lambda", "bound")]
        if not cand:
            return None
        it = r.choice(cand)
        n = it["n"]
        if r.random() < 0.4 or n in nm.taken or f"{n}Methods" in nm.taken:
            n = nm.cls() if it["k"] == "cls" else nm.fn()
        else:
            nm.taken |= {n, f"{n}Methods"}
        if n in UNUTTERABLE:
            return None
        if it["k"] == "fn" and it["flavor"] in ("def", "deco", "async") and r.random() < 0.25:
            # not the imported function, but a function that claims to be it
            return {"k": "fn", "n": n, "id": f"{full}:{n}", "flavor": "rewrap", "params": it["params"], "ret": it["ret"], "doc": it["doc"], "home": f, "inner": it["n"]}
        return {"k": "import", "what": it["k"], "origin": [f, it["n"]], "n": n, "src": f"from {f} import {it['n']} as {n}"}
    ext = r.choice([
        ("os", "import os as {}", "mod"), ("json", "import json as {}", "mod"),
        ("OrderedDict", "from collections import OrderedDict as {}", "cls"),
        ("dedent", "from textwrap import dedent as {}", "fn"), ("Path", "from pathlib import Path as {}", "cls"),
        ("sqrt", "from math import sqrt as {}", "builtin"),
    ])
    n = ext[0] if ext[0] not in nm.taken and r.random() < 0.6 else nm.fn()
    if n in UNUTTERABLE:
        return None
    nm.taken |= {n, f"{n}Methods"}
    return {"k": "import", "what": ext[2], "origin": None, "n": n, "src": ext[1].format(n)}


def gen_other(r, nm):
    """Attributes that must not get bindings."""
    k = r.choice(["reserved", "blocked", "typing", "dunder"])
    if k == "reserved":
        n = r.choice([x for x in RESERVED if x not in nm.taken] or ["__skip__"])
        src = f"def {n}(): return _v.hit('reserved', {{}})" if n != "__skip__" else ""
    elif k == "blocked":
        n = r.choice([x for x in BLOCKLIST if x not in nm.taken] or ["__skip__"])
        src = f"def {n}(): return _v.hit('blocked', {{}})" if n != "__skip__" else ""
    elif k == "typing":
        n = nm.pick([CWORDS])
        src = f"{n} = " + r.choice(["_t.List[int]", "_t.Any", "_t.Optional[int]"])
    else:
        n = "__" + r.choice(WORDS) + "__"
        src = f"{n} = 3"
    nm.taken.add(n)
    return {"k": "other", "n": n, "src": src, "sort": k}


# ---------------------------------------------------------------- source code
def _doc(doc, ind):
    return [f"{ind}{doc!r}"] if doc is not None else []


def emit_fn(f):
    out = []
    ret = f" -> {f['ret']['src']}" if f.get("ret") else ""
    n, args = f["n"], args_src(f["params"])
    body = f"return _v.hit({f['id']!r}, {args})"
    fl = f["flavor"]
    if fl == "lambda":
        ps = params_src(f["params"])
        return [f"{n} = lambda {ps}: _v.hit({f['id']!r}, {args})"]
    if fl == "partial":
        first = next(p for p in f["params"] if p["kind"] in ("po", "pk"))
        out.append(f"def _base_{n}({params_src(f['params'])}){ret}:")
        out += _doc(f["doc"], "    ")
        out.append(f"    {body}")
        out.append(f"{n} = _ft.partial(_base_{n}, _v.BOUND)")
        return out
    if fl == "rewrap":
        return [f"from {f['home']} import {f['inner']} as _orig_{n}", f"{n} = _v.rewrap(_orig_{n}, {f['id']!r})", f"del _orig_{n}"]
    if fl == "bound":
        out.append(f"def _zz_raw(_zz_recv{', ' * bool(f['params'])}{params_src(f['params'])}){ret}:")
        out += _doc(f["doc"], "    ")
        out.append(f"    {body}")
        if f.get("rawdoc"):
            out.append(f"_zz_raw.__doc__ = {f['rawdoc']}")
        out += [f"{n} = _v.held(_zz_raw, {f['inner']!r}, {f['how']!r})", "del _zz_raw"]
        return out
    if fl == "deco":
        out.append("@_v.deco")
    if fl == "rawdeco":
        out.append("@_v.rawdeco")
    out.append(f"{'async ' if fl == 'async' else ''}def {n}({params_src(f['params'])}){ret}:")
    out += _doc(f["doc"], "    ")
    out.append(f"    {body}")
    if f.get("rawdoc"):
        out.append(f"{n}.__doc__ = {f['rawdoc']}")
    return out


def emit_class(c, names):
    fl = c["flavor"]
    bases = [names[tuple(b)] for b in c["bases"]]
    if c.get("base_src"):
        bases = [c["base_src"]]
    out = []
    if fl == "exception":
        bases = ["Exception"]
    elif fl == "abc":
        bases = ["_abcm.ABC"]
    if fl == "dataclass":
        out.append("@_dc.dataclass")
    out.append(f"class {c['n']}({', '.join(bases)}):" if bases else f"class {c['n']}:")
    out += _doc(c["doc"], "    ")
    if c.get("rawdoc"):
        out.append(f"    __doc__ = {c['rawdoc']}")
    if fl == "slots":
        out.append("    __slots__ = ('_store', '__dict__', '__weakref__')")
    out += [f"    {x}" for x in c.get("body", ())]
    for a in c["attrs"]:
        if a["field"]:
            out.append(f"    {a['n']}: {a['field']['src']}")
        else:
            out.append(f"    {a['n']} = {a['expr']}")
    if c["init"]:
        i = c["init"]
        out.append(f"    def __init__({params_src(i['params'], 'self' if not any(p['n'] == 'self' for p in i['params']) else 'this')}):")
        out += _doc(i["doc"], "        ")
        out.append(f"        _v.hit({i['id']!r}, {args_src(i['params'])}, self, noret=True)")
    for n in c["private"]:
        out += [f"    def {n}(self): return _v.hit('private', {{}}, self)"]
    for n in c["nested"]:
        out += [f"    class {n}:", "        def inner(self): pass"]
    for p in c["props"]:
        ret = f" -> {p['get']['src']}" if p["get"] else ""
        made, wo = p.get("made"), p.get("wo")
        if not made:
            out.append("    @property")
        if not wo:
            out.append(f"    def {'_zz_get' if made else p['n']}(self){ret}:")
            out += _doc(p["getdoc"], "        ")
            out.append(f"        return _v.get({p['id']!r}, self)")
        if p["set"]:
            s = p["set"]
            ann = f": {s['ann']['src']}" if s["ann"] else ""
            if not made:
                out.append(f"    @{p['n']}.setter")
            out.append(f"    def {'_zz_set' if made else p['n']}(self, {s['param']}{ann}):")
            out += _doc(s["doc"], "        ")
            out.append(f"        _v.set({p['id']!r}, self, {s['param']})")
        if p.get("del"):
            if not made:
                out.append(f"    @{p['n']}.deleter")
            out.append(f"    def {'_zz_del' if made else p['n']}(self): _v.hit({p['id'] + '/del'!r}, {{}}, self)")
        if made:
            args = ["None" if wo else "_zz_get"] + ["_zz_set"] * bool(p["set"]) + ["fdel=_zz_del"] * bool(p.get("del")) + ([f"doc={p['doc']!r}"] if p["doc"] is not None else [])
            out.append(f"    {p['n']} = _b.property({', '.join(args)})")
            out.append("    del " + ", ".join(["_zz_get"] * (not wo) + ["_zz_set"] * bool(p["set"]) + ["_zz_del"] * bool(p.get("del"))))
    for m in c["methods"]:
        ret = f" -> {m['ret']['src']}" if m["ret"] else ""
        mk = m.get("bound") or m["mk"]
        recv = {"inst": m["self"], "class": "cls" if m["self"] == "self" else "klass", "static": None}[mk]
        if recv and any(p["n"] == recv for p in m["params"]):
            recv = recv + "_0"
        if mk == "class":
            out.append("    @_v.klass" if m.get("derived") else "    @classmethod")
        elif mk == "static":
            out.append("    @_v.static" if m.get("derived") else "    @staticmethod")
        if m["deco"]:
            out.append("    @_v.deco")
        out.append(f"    def {m['n']}({params_src(m['params'], recv)}){ret}:")
        out += _doc(m["doc"], "        ")
        out.append(f"        return _v.hit({m['id']!r}, {args_src(m['params'])}, {recv or 'None'})")
        if m.get("rawdoc"):
            out.append(f"    {m['n']}{'.__func__' if mk in ('class', 'static') else ''}.__doc__ = {m['rawdoc']}")
    if fl == "abc":
        out += ["    @_abcm.abstractmethod", "    def _abstract_hook(self): ..."] if c["n"].startswith("_") else []
    out.append("    pass")
    return out


HEADER = """import typing as _t, datetime as _dt, ipaddress as _ip, pathlib as _pl, collections.abc as _abc
import functools as _ft, abc as _abcm, dataclasses as _dc, builtins as _b, enum as _enum, collections as _coll
import vrec as _v
""".splitlines()


def emit_module(pkg, full):
    m = pkg["mods"][full]
    out = []
    if m["doc"] is not None:
        out.append(repr(m["doc"]))
    out += HEADER
    if m.get("rawdoc"):
        out.append(f"__doc__ = {m['rawdoc']}")
    names = {}
    for f, n, as_ in m["deps"]:
        out.append(f"from {f} import {n} as {as_}")
        names[(f, n)] = as_
    for s in m["eager"]:
        if s != "__main__":
            out.append(f"import {full}.{s} as _eager_{s.strip('_')}")
    if m["all"] is not None:
        # the public names are a list, or (just as well) a tuple
        out.append(f"__all__ = {(tuple if zlib.crc32(full.encode()) % 3 == 0 else list)(m['all'])!r}")
    # functions with reserved names (e.g. `str`) come last because they hide builtins
    for it in sorted(m["items"], key=lambda it: it.get("sort") == "reserved"):
        k = it["k"]
        if k == "fn":
            out += emit_fn(it)
        elif k == "cls":
            out += emit_class(it, names)
            names[(full, it["n"])] = it["n"]
        elif k in ("var", "tv"):
            out.append(f"{it['n']} = {it['expr']}")
        elif k == "alias":
            out.append(f"{it['n']} = {it['of']}")
        elif k in ("import", "other"):
            out.append(it["src"])
    return "\n".join(out) + "\n"


def write_package(pkg, root):
    for full in pkg["order"]:
        m = pkg["mods"][full]
        path = os.path.join(root, *full.split("."))
        if m["pkg"]:
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, "__init__.py")
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            path += ".py"
        with open(path, "w", encoding="utf-8") as f:
            f.write(emit_module(pkg, full))


VREC = '''"""Recorder of everything that the generated packages execute."""
import functools
import inspect
import typing


class Opaque:
    def method(self):
        hit("opaque.method", {}, self)


# Aliases whose names are also those of other types
type Dict = list[tuple[str, int]]
type Sequence[T] = dict[str, T]
type Callable = int | str
type Iterator = list[Iterator]
al_int = typing.TypeAliasType("int", list[str])
al_tuple = typing.TypeAliasType("tuple[int, str]", typing.Any)
Mapping = typing.NewType("Mapping", object)
SENTINEL = Opaque()
BOUND = Opaque()
LOG = []
COUNT = {}
PLAN = {}
DEFAULT = None
STORE = "_vstore"


def hit(id, args, recv=None, noret=False):
    LOG.append((id, args, recv))
    plan = PLAN.get(id)
    if plan is None:
        return DEFAULT
    kind, value = plan
    if kind == "raise":
        raise value
    return None if noret else value


def get(id, obj):
    LOG.append((id + "/get", {}, obj))
    plan = PLAN.get(id)
    if plan is not None and plan[0] == "raise":
        raise plan[1]
    return getattr(obj, STORE, {}).get(id)


def set(id, obj, value):
    LOG.append((id + "/set", {"value": value}, obj))
    plan = PLAN.get(id)
    if plan is not None and plan[0] == "raise":
        raise plan[1]
    if not hasattr(obj, STORE):
        object.__setattr__(obj, STORE, {})
    getattr(obj, STORE)[id] = value


def deco(f):
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)

    return wrapper


def held(f, name, how):
    """A method that is bound to some object."""
    f.__name__ = name
    f.__qualname__ = f"Held.{name}"
    held = type("Held", (), {name: classmethod(f) if how == "class" else f})
    return getattr(held if how == "class" else held(), name)


class static(staticmethod):
    """Like `abc.abstractstaticmethod`."""


class klass(classmethod):
    pass


def rewrap(f, id):
    signature = inspect.signature(f)

    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        bound = signature.bind(*args, **kwargs)
        bound.apply_defaults()
        return hit(id, dict(bound.arguments))

    return wrapper


def rawdeco(f):
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)

    return wrapper
'''


def write_recorder(root):
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, "vrec.py"), "w") as f:
        f.write(VREC)
