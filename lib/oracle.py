"""The bindings that are expected for a generated package, derived from its specification alone.

`expected(pkg, requests, cfg)` returns a tree of module nodes; `shape(model)` turns the item tree of real
bindings (as parsed by the driver) into the same form, so that both can be compared slice by slice.
"""
import functools
import re

from pygen import find_class, mro
from rustnames import BLOCKLIST, RESERVED, UNUTTERABLE, fn_name, rs, struct_name

CFG = dict(
    traverse_submodules=True, generate_preludes=True, generate_imports=True, generate_classes=True,
    generate_type_vars=True, generate_functions=True, generate_properties=True, generate_docs=True,
    include_private=False, blocklist_names=list(BLOCKLIST),
)

ANY_O = "pyo3::Bound<'py,pyo3::types::PyAny>"
ANY_B = "implpyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>"
TUP_O = "pyo3::Bound<'py,pyo3::types::PyTuple>"
TUP_B = "implpyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>"
DICT_O = "pyo3::Bound<'py,pyo3::types::PyDict>"
DICT_B = "implpyo3::types::IntoPyDict"


def bound(t):
    return f"pyo3::Bound<'py,pyo3::types::{t}>"


LEAF = {
    "bool": ("bool",) * 2, "int": ("i64",) * 2, "float": ("f64",) * 2,
    "str": ("std::string::String", "&str"), "bytes": ("std::vec::Vec<u8>", "&[u8]"),
    "bytearray": ("std::vec::Vec<u8>", "&[u8]"),
    "any": (ANY_O, ANY_B), "object": (ANY_O, ANY_B), "none": (ANY_O, ANY_B), "timedelta": (ANY_O, ANY_B),
    "ip4": ("std::net::IpAddr",) * 2, "path": ("std::path::PathBuf", "&std::path::Path"),
    "bare_list": (f"std::vec::Vec<{ANY_O}>", f"&[{ANY_O}]"), "bare_dict": (DICT_O, DICT_B), "bare_tuple": (TUP_O, TUP_B),
}
for _k, _t in (("date", "PyDate"), ("datetime", "PyDateTime"), ("time", "PyTime"), ("type", "PyType"), ("complex", "PyComplex"),
               ("slice", "PySlice"), ("callable", "PyFunction"), ("bare_set", "PySet"), ("bare_frozenset", "PyFrozenSet")):
    LEAF[_k] = (bound(_t), "&" + bound(_t))

HASHABLE = ("bool", "int", "str", "ip4", "path")
# Not understood by name inside of builtin generics, which are only available as text
TEXT_UNKNOWN = ("type", "timedelta", "bare_set", "bare_frozenset", "object")


class Types:
    """Expected Rust types of annotations; `known` tells which classes have generated bindings."""

    def __init__(self, known):
        self.known = known

    def pair(self, a, text=False):
        """(owned, borrowed) of an annotation node; `text`: it is only available as text."""
        k = a[0]
        own = lambda x: self.pair(x, text)[0]
        if k == "cls":
            ref = tuple(a[1])
            if not self.known(ref):
                return ANY_O, ANY_B
            t = f"pyo3::Bound<'py,@{ref[0]}.{ref[1]}>"
            return t, "&" + t
        if text and k in TEXT_UNKNOWN:
            return ANY_O, ANY_B
        if k in LEAF:
            return LEAF[k]
        if k == "union":
            return ANY_O, ANY_B
        if k == "opt":
            t = f"std::option::Option<{own(a[1])}>"
            return t, t
        if k in ("list", "seq", "iterable", "vtuple"):
            return f"std::vec::Vec<{own(a[1])}>", f"&[{own(a[1])}]"
        if k in ("set", "frozenset"):
            if a[1][0] in HASHABLE:
                t = f"std::collections::HashSet<{own(a[1])}>"
            else:
                t = bound("PySet" if k == "set" else "PyFrozenSet")
            return t, "&" + t
        if k == "dict":
            v = own(a[2])
            if a[1][0] in HASHABLE and "PyAny" not in v:
                t = f"std::collections::HashMap<{own(a[1])},{v}>"
                return t, "&" + t
            return DICT_O, DICT_B
        if k == "tuple":
            if not 2 <= len(a) - 1 <= 12:
                return TUP_O, TUP_B
            t = "(" + ",".join(own(x) for x in a[1:]) + ")"
            return t, t
        raise ValueError(k)

    def accept(self, rec):
        """(owned, borrowed, loose) of an annotation record or None (unannotated)."""
        if rec is None:
            return ANY_O, ANY_B, False
        a, style = rec["ann"], rec.get("style", "typing")
        if style == "string":
            bars = count_bars(a)
            if bars == 0:
                return (*self.pair(a, True), False)
            if bars == 1 and a[0] == "opt":
                t = f"std::option::Option<{self.pair(a[1], True)[0]}>"
                return t, t, False
            return ANY_O, ANY_B, False
        return (*self.pair(a), style == "mixed")


def count_bars(a):
    n = 0
    if a[0] == "opt":
        n = 1
    elif a[0] == "union":
        n = len(a) - 2
    if a[0] != "cls":
        n += sum(count_bars(x) for x in a[1:])
    return n


def norm_type(t):
    t = re.sub(r"(?<!r#)\bimpl\s*(?:::)?\s*", "impl", t)
    t = re.sub(r"\s+", "", t)
    return re.sub(r"(^|[^\w>])::", r"\1", t)


ABS = re.compile(r"@?[A-Za-z_\w#]+(?:(?:::|\.)[\w#@]+)*")


def type_matches(actual, want, loose):
    """`actual`: normalised type with local classes resolved to @full.name. `loose` allows Python objects in place of
    anything more specific."""
    if actual == want:
        return True
    if not loose:
        return False
    if actual in (ANY_O, ANY_B):
        return True
    return _loose(parse_type(actual), parse_type(want))


def parse_type(t):
    """Parses a normalised Rust type into nested tuples (head, args...)."""
    pos = 0

    def one():
        nonlocal pos
        if t[pos] == "&":
            pos += 1
            return ("&", one())
        if t[pos] in "([":
            close = ")" if t[pos] == "(" else "]"
            head = t[pos]
            pos += 1
            args = []
            while t[pos] != close:
                args.append(one())
                if t[pos] == ",":
                    pos += 1
            pos += 1
            return (head, *args)
        m = re.compile(r"[^<>,()\[\]&]+").match(t, pos)
        head = m.group(0)
        pos = m.end()
        args = []
        if pos < len(t) and t[pos] == "<":
            pos += 1
            while t[pos] != ">":
                args.append(one())
                if t[pos] == ",":
                    pos += 1
            pos += 1
        return (head, *args)

    r = one()
    return r


_ANY = parse_type(ANY_O)
_DICT = parse_type(DICT_O)
_TUPLE = parse_type(TUP_O)


def _loose(a, w):
    if a == w or a == _ANY:
        return True
    if a[0] == "implpyo3::types::IntoPyDict" and w[0] == "&" and w[1][0].endswith("HashMap"):
        return True
    if a == _DICT and w[0].endswith("HashMap"):
        return True
    return a[0] == w[0] and len(a) == len(w) and len(a) > 1 and all(_loose(x, y) for x, y in zip(a[1:], w[1:]))


# ---------------------------------------------------------------- documentation
def norm_doc(doc):
    if doc is None:
        return None
    # characters that rustc rejects in doc comments are written as escapes; lone CRs are line breaks
    doc = re.sub("[\u202a-\u202e\u2066-\u2069]", lambda m: "\\u{%x}" % ord(m[0]), doc)
    doc = re.sub("\r\n?", "\n", doc)
    lines = [re.sub(r"\s+", " ", re.sub(r"`+", "`", x)).strip() for x in doc.split("\n")]
    text = "\n".join(lines).strip()
    while text.endswith("/"):
        text = text[:-1].rstrip()
    return text


# ---------------------------------------------------------------- expected tree
class Node:
    def __init__(self, full):
        self.full = full
        self.doc = None
        self.fns = {}      # Rust name -> Fn
        self.structs = {}  # Rust name -> Struct
        self.types = set()
        self.uses = {}     # Rust name -> absolute Python path of the origin
        self.prelude = None
        self.prelude_opt = set()
        self.prelude_any = False
        self.mods = {}

    def names(self):
        return set(self.fns) | set(self.structs) | self.types | set(self.uses) | set(self.mods)


class Fn:
    """A generated function. sem: ("call", item) | ("get", var) | ("set", var) | ..."""

    def __init__(self, name, params, ret, doc, sem, recv=False):
        self.name, self.params, self.ret, self.doc, self.sem, self.recv = name, params, ret, doc, sem, recv


class Struct:
    def __init__(self, name, doc, ref):
        self.name, self.doc, self.ref = name, doc, ref
        self.assoc, self.trait = {}, {}


def rparam(p):
    """Parameter as the pair (name, (owned?, borrowed...))."""


VA = ("ty", TUP_B)
VK = ("ty", f"std::option::Option<{DICT_O}>")


class Oracle:
    def __init__(self, pkg, requests=None, cfg=None):
        self.pkg = pkg
        self.cfg = {**CFG, **(cfg or {})}
        self.requests = requests or [pkg["name"]]
        self.byname = pkg["mods"]
        self.present = set()   # modules whose own items are generated
        self.contrib = {}
        for r in self.requests:
            self._collect(r)
        self.types = Types(self._known)

    # which modules contribute their items
    def _collect(self, full):
        self.present.add(full)
        if self.cfg["traverse_submodules"]:
            for s in self.submodules(full):
                self._collect(f"{full}.{s}")

    def allowed(self, name, module):
        segs = [s for s in module.split(".") if s]
        if name in RESERVED or name in self.cfg["blocklist_names"]:
            return False
        if not self.cfg["include_private"] and (name.startswith("_") or any(s.startswith("_") for s in segs)):
            return False
        return not segs or segs[0] not in ("__future__", "typing")

    def submodules(self, full):
        return [s for s in self.byname[full]["subs"] if self.allowed(s, full)]

    @functools.lru_cache(maxsize=None)
    def _known(self, ref):
        full, name = ref
        return (full in self.present and self.cfg["generate_classes"] and self.allowed(name, full) and name not in UNUTTERABLE
                and not any(s in UNUTTERABLE for s in full.split(".")))

    # ------------------------------------------------------------ callables
    def params(self, params):
        out = []
        for p in params:
            if p["kind"] == "va":
                t = (TUP_B, False)
            elif p["kind"] == "vk":
                t = (VK[1], False)
            else:
                o, b, loose = self.types.accept(p["ann"])
                t = (b, loose)
            out.append((f"p_{p['n']}", t))
        return out

    def ret(self, rec):
        o, _, loose = self.types.accept(rec)
        return (o, loose)

    RAWPARAMS = [("p_args", (TUP_B, False)), ("p_kwargs", (VK[1], False))]

    def fn(self, it, name):
        fl = it["flavor"]
        if fl == "rawdeco":
            return Fn(fn_name(name), list(self.RAWPARAMS), (ANY_O, False), None, ("fn", it))
        ps = it["params"]
        doc = it["doc"]
        return Fn(fn_name(name), self.params(ps), self.ret(it["ret"]), doc, ("fn", it))

    def getter_name(self, n, scoped):
        if rs(n) is None or n in scoped or n in RESERVED:
            g = f"get_{n}"
            if g in scoped or g in RESERVED or rs(g) is None:
                return None
            return g
        return rs(n)

    def setter_name(self, n, scoped):
        s = f"set_{n}"
        return None if s in scoped or rs(s) is None else s

    # ------------------------------------------------------------ classes
    def members(self, c):
        """Effective members of a class: {name: (kind, member, defining class)}."""
        out = {}
        if c.get("base_src"):
            return out  # nothing is known about what the class inherits
        for k in mro(self.pkg, c):
            if k["init"]:
                out.setdefault("__init__", ("init", k["init"], k))
            if k["flavor"] == "dataclass":
                fields = [{"kind": "pk", "n": a["n"], "ann": a["field"], "default": None} for a in k["attrs"] if a["field"]]
                out.setdefault("__init__", ("dinit", {"params": fields, "doc": None}, k))
            for m in k["methods"]:
                out.setdefault(m["n"], (m["mk"], m, k))
            for p in k["props"]:
                out.setdefault(p["n"], ("prop", p, k))
            for a in k["attrs"]:
                if not a["field"]:
                    out.setdefault(a["n"], ("attr", a, k))
            for n in k["nested"]:
                out.setdefault(n, ("nested", None, k))
            for n in k["private"]:
                out.setdefault(n, ("private", None, k))
            if k["flavor"] == "exception":
                for n in ("args", "with_traceback", "add_note"):
                    out.setdefault(n, ("native", None, k))
        if "__init__" not in out:
            out["__init__"] = ("native", None, c)
        return out

    def struct(self, c, name):
        s = Struct(struct_name(name), c["doc"], (c["full"], c["n"]))
        mem = {}
        for n, (kind, m, k) in self.members(c).items():
            # functions carry the name of the module they were defined in
            module = k["full"] if kind in ("inst", "class", "static", "init", "private", "call") else ""
            if self.allowed(n, module) or n in ("__init__", "__call__"):
                mem[n] = (kind, m, k)
        methods = [n for n, (k, _, _) in mem.items() if k in ("inst", "class", "static", "init", "dinit", "call", "private")]
        props = [n for n, (k, _, _) in mem.items() if k in ("prop", "attr", "native")]

        def free(base):
            i = 0
            while True:
                n = base + (str(i) if i else "")
                if n not in methods:
                    return n
                i += 1

        extra = []
        for n in methods:
            kind, m, k = mem[n]
            if kind in ("init", "dinit"):
                nn = free("new")
                extra.append(nn)
                s.assoc[nn] = Fn(nn, self.params(m["params"]), (f"pyo3::Bound<'py,Self>", False), m["doc"] if kind == "init" else None,
                                 ("new", m, kind))
            elif kind == "call":
                nn = free("call")
                extra.append(nn)
                s.trait[nn] = Fn(nn, self.params(m["params"]), self.ret(m["ret"]), m["doc"], ("call", m), recv=True)
            elif kind == "private":
                s.trait[fn_name(n)] = Fn(fn_name(n), [], (ANY_O, False), None, ("private", n), recv=True)
            else:
                nn = fn_name(n)
                f = Fn(nn, self.params(m["params"]), self.ret(m["ret"]), m["doc"], (kind, m), recv=kind == "inst")
                (s.trait if kind == "inst" else s.assoc)[nn] = f
        for n in props:
            kind, p, k = mem[n]
            scoped = set(methods) | set(extra) | (set(props) - {n})
            gdoc = sdoc = None
            ret = (ANY_O, False)
            setter = None
            if kind == "prop":
                ret = self.ret(p["get"])
                gdoc = p.get("doc") or p["getdoc"]
                if p["set"]:
                    sdoc = p["set"]["doc"]
                    gdoc, sdoc = gdoc or sdoc, sdoc or gdoc
                    o, b, loose = self.types.accept(p["set"]["ann"])
                    setter = (b, loose)
            elif kind == "attr":
                o, b, loose = self.types.accept({"ann": p["ann"]})
                ret = (o, loose)
            g = self.getter_name(n, scoped)
            if g:
                s.trait[g] = Fn(g, [], ret, gdoc, ("pget", n, kind, p), recv=True)
            if setter:
                w = self.setter_name(n, scoped)
                if w:
                    s.trait[w] = Fn(w, [("p_value", setter)], ("()", False), sdoc, ("pset", n, kind, p), recv=True)
        return s

    # ------------------------------------------------------------ modules
    def home(self, it, full):
        """The `__module__` that the value of an item reports ('' if none)."""
        k = it["k"]
        if k == "fn":
            return it.get("home") or {"partial": "functools", "rawdeco": "vrec"}.get(it["flavor"], full)
        if k == "cls":
            return full
        if k == "tv":
            e = it["expr"]
            return "builtins" if e.startswith("list") else "types" if "|" in e else full
        if k == "var":
            return "vrec" if "Opaque" in it["expr"] else full if it["expr"].endswith("()") and it["ann"][0] == "cls" else ""
        return ""

    def module(self, full):
        m = self.byname[full]
        cfg = self.cfg
        node = Node(full)
        if cfg["generate_docs"]:
            node.doc = m["doc"]
        if full not in self.present:
            return node
        fns, props = {}, {}
        last = {}
        for it in m["items"]:
            last[it["n"]] = it
        for n, it in list(last.items()):
            k = it["k"]
            src = it
            if k == "other" and it.get("sort") == "blocked" and it["src"]:
                # an ordinary function if its name is not blocklisted after all
                k = "fn"
                src = it = {**it, "k": "fn", "flavor": "def", "params": [], "ret": None, "doc": None, "id": "blocked"}
                last[n] = it
            if k == "alias":
                src = next(x for x in m["items"] if x["n"] == it["of"] and x["k"] in ("fn", "cls"))
                k = src["k"]
            if k == "import" and it["origin"] and it["what"] == "fn":
                x = next(x for x in self.byname[it["origin"][0]]["items"] if x["n"] == it["origin"][1])
                if x.get("flavor") == "bound" and x["inner"] != x["n"]:
                    # nothing that could be imported from its alleged origin
                    k, src = "fn", {**x, "home": it["origin"][0]}
                    last[n] = src
            if k in ("fn", "cls", "var", "tv"):
                if not self.allowed(n, self.home(src, full)):
                    continue
            if k == "fn" and src["flavor"] == "partial":
                # an object of some class, not a function
                props[n] = {**src, "ann": ["any"]}
            elif k == "fn":
                fns[n] = src
            elif k == "cls":
                if cfg["generate_classes"]:
                    node.structs[struct_name(n)] = self.struct(src, n)
            elif k == "var":
                props[n] = src
            elif k == "tv":
                if cfg["generate_type_vars"] and rs(n):
                    node.types.add(rs(n))
            elif k == "import":
                if it["what"] == "builtin":
                    if self.allowed(n, "math"):
                        fns[n] = {"flavor": "builtin"}
                elif it["origin"] and self.allowed(n, it["origin"][0] if it["what"] != "mod" else "") and rs(n):
                    f, on = it["origin"]
                    path = f.split(".") + ([on] if on else [])
                    if not f.startswith(full + "."):
                        continue
                    if not all(self.allowed(path[i], ".".join(path[:i])) for i in range(len(path))):
                        continue
                    if any(rs(x) is None for x in path):
                        continue
                    if not self.exists(f, on, it["what"]):
                        continue
                    if f == f"{full}.{n}" and on is None:
                        continue
                    node.uses_candidates = True
                    if cfg["generate_imports"]:
                        node.uses[rs(n)] = ".".join(path)
        for n, it in fns.items():
            if not cfg["generate_functions"]:
                continue
            if it["flavor"] == "builtin":
                f = Fn(fn_name(n), [("p_x", (ANY_B, False))], (ANY_O, False), __import__("math").sqrt.__doc__, ("builtin",))
            else:
                f = self.fn(it, n)
            node.fns[f.name] = f
        for n, it in props.items():
            if not cfg["generate_properties"]:
                continue
            scoped = set(fns) | (set(props) - {n})
            o, b, loose = self.types.accept({"ann": it["ann"]})
            g = self.getter_name(n, scoped)
            if g:
                node.fns[g] = Fn(g, [], (o, loose), None, ("vget", n, it))
            w = self.setter_name(n, scoped)
            if w:
                node.fns[w] = Fn(w, [("p_value", (b, loose))], ("()", False), None, ("vset", n, it))
        # preludes
        if cfg["generate_preludes"] and m["all"] is not None:
            subs = self.submodules(full)
            public = {x for x in last if not x.startswith("_") and not x.startswith("__")} | set(subs)
            if set(m["all"]) != public:
                names = set()
                for n in m["all"]:
                    it = last.get(n)
                    if n in subs:
                        # only generated submodules count
                        if f"{full}.{n}" in self.present and rs(n):
                            names.add(rs(n))
                        elif rs(n) and any(x.startswith(f"{full}.{n}.") for x in self.present):
                            # an otherwise empty parent of requested modules
                            node.prelude_opt.add(rs(n))
                        continue
                    if it is None or not self.allowed(n, full) or rs(n) is None:
                        continue
                    k, src = it["k"], it
                    if k == "alias":
                        src = next(x for x in m["items"] if x["n"] == it["of"] and x["k"] in ("fn", "cls"))
                        k = src["k"]
                    ok = (k == "fn" and cfg["generate_functions"] and n in fns or n in props and cfg["generate_properties"] or k == "cls" and cfg["generate_classes"] and struct_name(n) in node.structs
                          or k == "tv" and cfg["generate_type_vars"] and rs(n) in node.types)
                    if ok:
                        if k == "fn" and src["flavor"] == "rawdeco":
                            node.prelude_opt.add(rs(n))
                        else:
                            names.add(rs(n))
                if names or node.prelude_opt:
                    node.prelude = names
        return node

    def exists(self, full, name, what):
        """Whether an item is among the generated ones."""
        if name is None:
            return full in self.present
        if full not in self.present:
            return False
        if what == "cls":
            return self.cfg["generate_classes"]
        it = next(x for x in self.byname[full]["items"] if x["n"] == name)
        if it.get("flavor") == "lambda":
            return False
        return self.cfg["generate_functions"]

    def tree(self):
        """{root name: Node} with all requested modules nested in their packages."""
        root = Node("")
        for full in sorted(self.present):
            segs = full.split(".")
            node = root
            for i in range(len(segs)):
                sub = ".".join(segs[: i + 1])
                r = rs(segs[i])
                if r is None:
                    break
                if r not in node.mods:
                    node.mods[r] = self.module(sub)
                node = node.mods[r]
        return root.mods


# ---------------------------------------------------------------- shape of real bindings
class Shape:
    """Module of real bindings; problems found while reading it are listed in `odd`."""

    def __init__(self, path):
        self.path = path
        self.docs = []
        self.attrs = []
        self.fns, self.structs, self.types, self.uses, self.mods = {}, {}, {}, {}, {}
        self.prelude = None
        self.odd = []

    def walk(self):
        yield self
        for m in self.mods.values():
            yield from m.walk()


class SStruct:
    def __init__(self, item):
        self.item = item
        self.docs = item["docs"]
        self.assoc, self.trait, self.decl = {}, {}, {}
        self.macros = []


def shape(items, path=(), odd=None):
    s = Shape(path)
    odd = s.odd if odd is None else odd

    def put(d, k, v, what):
        if k in d:
            odd.append(f"duplicate {what} {'::'.join(path)}::{k}")
        d[k] = v

    for it in items:
        k = it["kind"]
        if k == "mod":
            uses = [x for x in it["items"]]
            if uses and all(x["kind"] == "use" and all(u["path"][0] == "super" for u in x["uses"]) for x in uses) and re.fullmatch(
                r"call\d*", it["name"]
            ) and it["items"]:
                if s.prelude is not None:
                    odd.append(f"two preludes in {'::'.join(path)}")
                s.prelude = (it["name"], [u["path"][1:] for x in uses for u in x["uses"]])
                continue
            sub = shape(it["items"], path + (it["name"],), odd)
            sub.docs, sub.attrs, sub.vis = it["docs"], it["attrs"], it["vis"]
            put(s.mods, it["name"], sub, "module")
            if it["vis"] != "pub":
                odd.append(f"module {it['name']} is not public")
        elif k == "fn":
            put(s.fns, it["name"], it, "function")
            if it.get("vis") != "pub":
                odd.append(f"function {it['name']} is not public")
        elif k == "struct":
            put(s.structs, it["name"], SStruct(it), "struct")
            if it.get("vis") != "pub":
                odd.append(f"struct {it['name']} is not public")
        elif k == "type":
            put(s.types, it["name"], it, "type")
            if it.get("vis") != "pub":
                odd.append(f"type {it['name']} is not public")
        elif k == "use":
            for u in it["uses"]:
                put(s.uses, u["as"], (u["path"], it["vis"]), "use")
        elif k in ("trait", "impl", "macro"):
            pass
        else:
            odd.append(f"unexpected item in {'::'.join(path)}: {str(it)[:200]}")
    for it in items:
        k = it["kind"]
        if k == "impl":
            st = s.structs.get(it["self"]) if it["trait"] is None else None
            d = "assoc"
            if it["trait"] is not None:
                name = it["trait"][: -len("Methods")] if it["trait"].endswith("Methods") else None
                st = s.structs.get(name) or s.structs.get("r#" + str(name))
                d = "trait"
            if st is None:
                odd.append(f"impl without struct: {it['self']} {it['trait']}")
                continue
            for f in it["items"]:
                if f["kind"] != "fn":
                    odd.append(f"unexpected impl item {f}")
                    continue
                if f["name"] in getattr(st, d):
                    odd.append(f"duplicate method {it['self']}::{f['name']}")
                getattr(st, d)[f["name"]] = f
        elif k == "trait":
            name = it["name"][: -len("Methods")] if it["name"].endswith("Methods") else None
            st = s.structs.get(name) or s.structs.get("r#" + str(name))
            if st is None:
                odd.append(f"trait without struct: {it['name']}")
                continue
            st.traitname = it["name"]
            for f in it["items"]:
                st.decl[f["name"]] = f
    for n, st in s.structs.items():
        if set(st.decl) != set(st.trait):
            odd.append(f"trait and impl of {n} differ: {sorted(set(st.decl) ^ set(st.trait))}")
    return s


def resolve(shape_root, path_mod, segs, depth=0):
    """Resolves a relative Rust path to an absolute one, following re-exports. Returns a tuple or None."""
    cur = list(path_mod)
    i = 0
    while i < len(segs) and segs[i] in ("self", "super"):
        if segs[i] == "super":
            if not cur:
                return None
            cur.pop()
        i += 1
    rest = list(segs[i:])
    if depth > 20:
        return None
    while rest:
        mod = lookup_mod(shape_root, cur)
        if mod is None:
            return None
        n = rest.pop(0)
        if n in mod.mods:
            cur.append(n)
        elif n in mod.uses:
            r = resolve(shape_root, cur, mod.uses[n][0], depth + 1)
            if r is None:
                return None
            cur = list(r)
        elif not rest and (n in mod.structs or n in mod.fns or n in mod.types):
            return tuple(cur) + (n,)
        else:
            return None
    return tuple(cur)


def lookup_mod(root, path):
    m = root
    for p in path:
        m = m.mods.get(p)
        if m is None:
            return None
    return m


BUILTIN_HEAD = ("pyo3::", "std::", "implpyo3::", "core::")


def actual_type(t, root, path):
    """Normalised type in which paths to generated classes are replaced by @full.name (with r# removed)."""
    t = norm_type(t)

    def sub(m):
        name = m.group(0)
        if resolve(root, path, name.split("::")) is None and (
            name.startswith(BUILTIN_HEAD) or name.startswith("impl") and name[4:].startswith(BUILTIN_HEAD)
            or name in ("impl", "bool", "i64", "f64", "str", "u8", "py", "Self", "dyn", "mut")
        ):
            return name
        r = resolve(root, path, name.split("::"))
        if r is None:
            return f"?{name}"
        return "@" + ".".join(x[2:] if x.startswith("r#") else x for x in r)

    return re.sub(r"(?<!')(?:r#)?\b[^\W\d]\w*(?:::(?:r#)?\w+)*", sub, t)


# ---------------------------------------------------------------- comparison
def diff_structure(exp, act, out, where=""):
    """C03: which items exist, with which parameters."""
    here = where or "<root>"

    def names(kind, e, a):
        e, a = set(e), set(a)
        for n in sorted(e - a):
            out.append(f"{here}: {kind} `{n}` is missing")
        for n in sorted(a - e):
            out.append(f"{here}: unexpected {kind} `{n}`")
        return sorted(e & a)

    for n in names("function", exp.fns, act.fns):
        diff_params(exp.fns[n], act.fns[n], out, f"{here}::{n}")
    for n in names("class", exp.structs, act.structs):
        es, as_ = exp.structs[n], act.structs[n]
        for kind in ("assoc", "trait"):
            e, a = getattr(es, kind), getattr(as_, kind)
            for x in sorted(set(e) - set(a)):
                out.append(f"{here}::{n}: {kind} function `{x}` is missing")
            for x in sorted(set(a) - set(e)):
                out.append(f"{here}::{n}: unexpected {kind} function `{x}`")
            for x in sorted(set(a) & set(e)):
                diff_params(e[x], a[x], out, f"{here}::{n}::{x}", recv=kind == "trait")
    names("type variable", exp.types, act.types)
    for n in names("module", exp.mods, act.mods):
        diff_structure(exp.mods[n], act.mods[n], out, f"{where}::{n}" if where else n)


def diff_params(e, a, out, where, recv=False):
    ps = [p for p, _ in a["params"]]
    if not recv:
        if not ps or ps[0] != "py":
            out.append(f"{where}: first parameter is not `py`")
        ps = ps[1:]
    want = [p for p, _ in e.params]
    if ps != want:
        out.append(f"{where}: parameters {ps} instead of {want}")


def pairs(exp, act):
    """All pairs of corresponding (kind, where, module shape, expected, actual) items."""
    yield "mod", "::".join(act.path), act, exp, act
    for n in exp.fns.keys() & act.fns.keys():
        yield "fn", "::".join(act.path + (n,)), act, exp.fns[n], act.fns[n]
    for n in exp.structs.keys() & act.structs.keys():
        es, as_ = exp.structs[n], act.structs[n]
        yield "struct", "::".join(act.path + (n,)), act, es, as_
        for kind in ("assoc", "trait"):
            for x in getattr(es, kind).keys() & getattr(as_, kind).keys():
                yield kind, "::".join(act.path + (n, x)), act, getattr(es, kind)[x], getattr(as_, kind)[x]
    for n in exp.mods.keys() & act.mods.keys():
        yield from pairs(exp.mods[n], act.mods[n])


def diff_types(exp, act, root, out):
    n = 0
    for kind, where, mod, e, a in pairs(exp, act):
        if kind in ("mod", "struct"):
            continue
        ps = a["params"] if kind == "trait" else a["params"][1:]
        if len(ps) == len(e.params):
            for (pn, pt), (en, (want, loose)) in zip(ps, e.params):
                n += 1
                got = actual_type(pt, root, mod.path)
                if not type_matches(got, want, loose):
                    out.append(f"{where}: parameter {pn} has type {got} instead of {want}")
        want, loose = e.ret
        got = actual_type(a["ret"], root, mod.path)
        want = f"pyo3::PyResult<{want}>"
        n += 1
        if not (got == want or loose and _loose(parse_type(got), parse_type(want))):
            out.append(f"{where}: return type {got} instead of {want}")
    return n


def diff_docs(exp, act, out):
    n = 0
    for kind, where, mod, e, a in pairs(exp, act):
        docs = a.docs if kind in ("mod", "struct") else a["docs"]
        n += 1
        got = "\n".join(docs) if docs else None
        if norm_doc(got) != norm_doc(e.doc):
            out.append(f"{where} ({kind}): documentation {got!r} instead of {e.doc!r}")
        if kind == "assoc" or kind == "trait":
            pass
    return n


def diff_uses(exp, act, root, out):
    """C17: re-exports and preludes."""
    n = 0
    here = "::".join(act.path)
    for name in sorted(set(exp.uses) - set(act.uses)):
        out.append(f"{here}: re-export `{name}` of {exp.uses[name]} is missing")
    for name in sorted(set(act.uses) - set(exp.uses)):
        out.append(f"{here}: unexpected re-export `{name}` of {act.uses[name][0]}")
    for name in sorted(set(act.uses) & set(exp.uses)):
        n += 1
        path, vis = act.uses[name]
        if vis != "pub":
            out.append(f"{here}: re-export `{name}` is not public")
        r = resolve(root, act.path, path)
        got = ".".join(x[2:] if x.startswith("r#") else x for x in r) if r else None
        want = exp.uses[name]
        segs = want.split(".")
        if got != want and got != ".".join(segs[:-1] + [fn_name(segs[-1])]):
            out.append(f"{here}: re-export `{name}` is {got} ({'::'.join(path)}) instead of {want}")
    got = None
    if act.prelude:
        n += 1
        nm, paths = act.prelude
        got = {p[0] for p in paths if len(p) == 1}
        if len(got) != len(paths):
            out.append(f"{here}: odd prelude {paths}")
        if nm in act.fns or nm in act.structs or nm in act.mods or nm in act.types or nm in act.uses:
            out.append(f"{here}: the name of the prelude clashes: {nm}")
    want = exp.prelude or set()
    got = got or set()
    if not (want <= got <= want | exp.prelude_opt):
        if not (exp.prelude_any and not got):
            out.append(f"{here}: prelude {sorted(got)} instead of {sorted(want)}")
    for k in sorted(exp.mods.keys() & act.mods.keys()):
        n += diff_uses(exp.mods[k], act.mods[k], root, out)
    return n


def count_items(node):
    n = 1 + len(node.fns) + len(node.types) + len(node.uses)
    for s in node.structs.values():
        n += 1 + len(s.assoc) + len(s.trait)
    return n + sum(count_items(m) for m in node.mods.values())
