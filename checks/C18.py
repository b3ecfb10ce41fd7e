import collections
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import realmods
import vcommon as v
import world

STD = ["json", "html", "email", "xml.dom", "http", "urllib", "wsgiref", "xmlrpc", "sqlite3", "csv", "uuid", "decimal", "fractions", "statistics", "string", "textwrap", "argparse", "queue", "sched", "colorsys",
       "cmd", "calendar", "configparser", "plistlib", "mailbox", "gettext", "graphlib", "zipapp", "timeit", "unittest", "concurrent.futures", "multiprocessing", "tomllib"]
# Third-party packages without descriptors or module attributes that are computed whenever they are read
QUIET = [n for n in realmods.THIRD if n not in "anyio deal execnet lark mypy_extensions packaging rich six stevedore werkzeug".split()]
SWITCHES = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs", "traverse_submodules", "include_private", "generate_dependencies",
            "suppress_python_stdout", "suppress_python_stderr"]

# A class of objects that tell whatever is asked of them
LOUD = """
import typing
class Loud:
    def __init__(self, n=0): self.n = n
    def __call__(self, *a, **k): return 1
    def __eq__(self, o): return NotImplemented
    def __hash__(self): return 5
    def __repr__(self): return 'Loud'
    def __str__(self): return 'loud'
    def __dir__(self): return ['a']
    def __instancecheck__(self, o): return False
    def __mro_entries__(self, b): return ()
    def __set_name__(self, o, n): pass
    def __bool__(self): return True
    def __len__(self): return 3
    def __iter__(self): return iter(())
    def __contains__(self, x): return False
    def __getitem__(self, k): return 1
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def __int__(self): return 1
    def __index__(self): return 1
    def __float__(self): return 1.0
    def __del__(self): pass
    def __format__(self, s): return 'x'
    def __add__(self, o): return self
    def __await__(self): return iter(())
    def __next__(self): raise StopIteration
    def __reduce__(self): return (Loud, ())
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    @property
    def prop(self): return 1
    @prop.setter
    def prop(self, v): pass
    @prop.deleter
    def prop(self): pass
    @classmethod
    def make(cls): return cls()
    @staticmethod
    def stat(a): return a
    def method(self, a: int = 1) -> str: return ''
"""

# Every function in these modules would tell that it was called.
WATCH = {
    "values": LOUD + """
x = Loud()
y: Loud = Loud(1)
_z = Loud(2)
many = [Loud(), Loud()]
table = {'a': Loud(), Loud(): 1}
def f(a=x, *, b=Loud(), **c): return a
def g(a: Loud = x) -> Loud: return a
async def h(): return 1
def gen(): yield 1
call = lambda a: a
bound = x.method
bound_cls = Loud.make
class Holder:
    loud = Loud()
    bound = x.method
    def m(self, a=Loud(), *, b: typing.Annotated[int, Loud()] = x) -> typing.Optional['Loud']: return a
    p = property(x.method)
    nested: typing.ClassVar[Loud] = x
""",
    "class machinery": """
class Meta(type):
    def __call__(cls, *a, **k): return super().__call__(*a, **k)
    def __instancecheck__(cls, o): return False
    def __subclasscheck__(cls, c): return False
    def __len__(cls): return 1
    def __repr__(cls): return 'Meta!'
    def __str__(cls): return 'Meta!!'
    def __hash__(cls): return 5
    def __eq__(cls, o): return cls is o
    def __bool__(cls): return True
    def __iter__(cls): return iter(())
    def extra(cls): return 1
    @property
    def meta_prop(cls): return 1
class Base(metaclass=Meta):
    def __new__(cls, *a): return object.__new__(cls)
    def __init__(self, a: int = 1): pass
    def __init_subclass__(cls, **k): pass
    def __class_getitem__(cls, k): return cls
    def method(self): pass
class Sub(Base):
    attr = 5
    def method(self, other: Base) -> 'Base': pass
def uses(a: Base, b: Sub = None) -> Base: return a
kind = Base
var: Base = None
class Slots:
    __slots__ = ('a', 'b')
    def __init__(self): self.a = 1
""",
    "text": """
LOUDdef mark(*a): return int
class Sub:
    def __class_getitem__(cls, k): return cls
def f(a: 'mark()', *b: 'Loud()', c: 'Sub[mark()]' = 1, **d: '[mark(i) for i in (1, 2)]') -> 'mark()': return a
def g(a: 'mark' = 1, /, b: typing.Optional['mark()'] = None) -> typing.List['mark(1)']: return a
class C:
    x: 'mark()'
    y: 'mark()' = 1
    def __init__(self, a: 'mark(2)'): pass
    def __call__(self, a: 'mark(2)') -> 'mark()': pass
    def m(self, a: 'mark(1)') -> 'typing.Optional[mark()]': return a
    @classmethod
    def c(cls, a: 'mark(1)') -> 'typing.Optional[mark()]': return a
    @staticmethod
    def s(a: 'mark(1)') -> 'typing.Optional[mark()]': return a
    @property
    def p(self) -> 'mark()': return 1
    @p.setter
    def p(self, v: 'mark()') -> 'mark()': pass
v: 'mark()' = 1
w: 'Sub[Sub[mark()]]'
bound = C(1).m
""".replace("LOUD", LOUD),
    "loud parts": """
LOUDimport functools, abc
L = Loud
class Props:
    a = property(L())
    b = property(L(), L())
    c = property(lambda self: 1, L(), L())
    d = property(None, L())
    e = property(None, None, L())
    f = property(L(), None, None, 'doc')
    g = classmethod(L())
    h = staticmethod(L())
    i = functools.cached_property(L())
    j = functools.partialmethod(L(), L())
    k = functools.partial(L(), L(), x=L())
    m = staticmethod(staticmethod(L()))
    n = abc.abstractmethod(L())
    o: L() = L()
    def p(self, a: L() = L(), *b: L(), c: L() = L(), **d: L()) -> L(): return a
    @property
    def q(self) -> L(): return 1
    @q.setter
    def q(self, v: L() = L()) -> L(): pass
    def _hidden(self, a: L() = L()) -> L(): return a
def f(a: L() = L(), /, b: L() = L(), *c: L(), d: L() = L(), **e: L()) -> L(): return a
def w(a): return a
w.__wrapped__ = L()
def s(a): return a
s.__signature__ = None
def d(a): return a
d.__dict__['__doc__'] = L()
d.__doc__ = L()
def k(a): return a
k.__text_signature__ = L()
def t(a): return a
t.__type_params__ = ()
t.extra = L()
lam = lambda a=L(): a
part = functools.partial(L(), L())
class Doc:
    __doc__ = L()
    __slots__ = ()
class Note:
    __annotations__ = {'x': L(), 'y': [L()]}
    x = L()
    __text_signature__ = None
v: L() = L()
u: [L(), L()] = {L(): L()}
class OnClass(L):
    def __call__(self): return 1
    @classmethod
    def cm(cls, a: L() = L()): return a
    @staticmethod
    def sm(a: L() = L()): return a
    def __init_subclass__(cls, **k): pass
class Deeper(OnClass): pass
dd = Deeper()
def deco(f):
    @functools.wraps(f)
    def inner(*a: L(), **k: L()): return f(*a, **k)
    return inner
@deco
@deco
def two(a: L() = L()) -> L(): return a
class Meta(type):
    mp = property(L(), L())
    mx = L()
class WithMeta(metaclass=Meta):
    def m(self): return 1
""".replace("LOUD", LOUD),
    "loud documentation": """
LOUDimport functools
__doc__ = Loud()
def d(a): return a
d.__doc__ = Loud()
def e(a): return a
e.__dict__['__doc__'] = Loud()
class Doc:
    __doc__ = Loud()
    def m(self): return 1
    m.__doc__ = Loud()
    @classmethod
    def c(cls): return 1
    c.__func__.__doc__ = Loud()
    p = property(d, d, None, Loud())
    q = property(d, d)
    r = property(None, d, None, Loud())
    s = functools.partial(d)
    s.__doc__ = Loud()
class Error(Exception):
    __doc__ = Loud()
    args = property(d, doc=Loud())
part = functools.partial(d)
part.__doc__ = Loud()
""".replace("LOUD", LOUD),
    "decorators": """
import functools, contextlib
def deco(f):
    @functools.wraps(f)
    def inner(*a, **k): return f(*a, **k)
    return inner
@deco
def decorated(a: int) -> str: return ''
@functools.lru_cache
def cached(a): return a
@functools.singledispatch
def single(a): return a
@single.register
def _(a: int): return a
@contextlib.contextmanager
def manager(): yield 1
part = functools.partial(deco, None)
class C:
    @functools.cached_property
    def cp(self): return 1
    @deco
    def m(self): return 1
    @property
    @deco
    def p(self): return 1
    pm = functools.partialmethod(m)
""",
    "data": """
import dataclasses, enum, typing, collections
@dataclasses.dataclass
class D:
    a: int
    b: list = dataclasses.field(default_factory=lambda: [1])
    def __post_init__(self): pass
class E(enum.Enum):
    A = 1
    B = 2
    def method(self): return 1
class N(typing.NamedTuple):
    a: int = 1
    def method(self): return 1
P = collections.namedtuple('P', 'a b')
T = typing.TypeVar('T')
class G(typing.Generic[T]):
    def method(self, x: T) -> T: return x
class Proto(typing.Protocol):
    def method(self) -> int: ...
e = E.A
d = D(1)
n = N()
""",
    "plain classes without annotations": "class A: pass\nclass B(A):\n    x = 1\n    def m(self): pass\ndef f(): pass\nclass Ann:\n    a: int\n    b: 'str' = ''\nv: int\nw: 'B' = None\n",
    "mutable": "data = [1, [2]]\nd = {'k': [1]}\ns = {1, 2}\n__all__ = ['f', 'data']\ndef f(a=[], b={}, *, c=[1]) -> 'list': return a\nf.extra = []\nclass C:\n    shared = []\n    def m(self, x=[]): pass\n    m.tag = {}\n",
    "lazy": "def __getattr__(name):\n    if name == 'lazy': return 5\n    raise AttributeError(name)\ndef f(): ...\n",
    "hooks": "import sys, warnings, atexit\ndef hook(*a): pass\n_seen = [hook]\ndef f(): pass\nclass C:\n    def __set_name__(self, o, n): pass\n    def __get__(self, o, t=None): return self\nc = C()\n",
}
WATCH["text of the compiler"] = "from __future__ import annotations\n" + WATCH["text"].replace("'", "")
BROKEN = {"raises": "x = 1\ndef f(): ...\nraise RuntimeError('x')\n", "exits": "import sys\nsys.exit(3)\n", "syntax": "def f(:\n", "base": "class B(BaseException): pass\nraise B\n", "missing": "import zz_missing_module\n", "warns": "import warnings\nwarnings.warn('careful')\ndef f(): ...\n",
          "prints": "import sys\nprint('x' * 100)\nprint('y', file=sys.stderr)\ndef f(): ...\n", "keyboard": "raise KeyboardInterrupt\n"}


def job(jid, conf, steps, **kw):
    pre = f"import sys\nsys.path.insert(0, {v.LIB!r})\nimport effects\nsys.path.remove({v.LIB!r})\neffects.begin({conf!r})"
    j = {"id": jid, "pre": pre, "steps": steps, "model": False, "post": "effects.end()", **kw}
    if kw.get("repeat"):
        j["between"] = "effects.between() or ''"
    return j


def inthread(j):
    """The same generation in another thread."""
    sub = {k: j.pop(k) for k in ("steps", "cfg") if k in j}
    sub["repeat"] = j.pop("repeat", 1)
    j.pop("between", None)
    sub["model"] = False
    j["threads"] = [sub]
    return j


def check(rep):
    rep.rule = (
        "an online monitor (sys.monitoring) sees every Python function that starts during a generation, and snapshots of all modules, classes, functions, reference counts and of about 100 parts of the interpreter's"
        " state are compared before and after; a case is a distinct package and configuration"
    )
    v.build_drv()
    r = v.rng("c18")
    w = world.World("se", 600 if v.THOROUGH else 200)
    jobs, info = [], {}

    def add(conf, steps, what, thread=False, **kw):
        jid = f"j{len(info)}"
        j = job(jid, conf, steps, **kw)
        jobs.append(inthread(j) if thread else j)
        info[jid] = (conf, steps, kw.get("cfg"), what)
        return jid

    def cfg():
        if r.random() < 0.4:
            return None
        return {x: r.random() < (0.3 if x in ("include_private", "generate_dependencies") else 0.75) for x in r.sample(SWITCHES, r.randint(1, len(SWITCHES)))}

    fresh = {}
    for i, (n, p) in enumerate(w.pkgs.items()):
        order = p["order"]
        base = {"roots": [n], "dir": w.root, "prefix": os.path.join(w.root, n), "mods": order}
        # (a package or a module)
        mods = [m for m in order if not any(s.startswith("_") for s in m.split("."))]
        pick = [n] if r.random() < 0.6 else r.sample(mods, min(len(mods), r.randint(1, 3)))
        steps = r.choice([[{"op": "names", "v": pick}], [{"op": "name", "v": m} for m in pick], [{"op": "module", "v": m} for m in pick]])
        if r.random() < 0.2:
            steps = steps + [{"op": "clone"}]
        c = cfg()
        add({**base, "mode": "imported", "leak": True}, steps, "imported", cfg=c, repeat=3)
        if i % 4 == 0:
            add({**base, "mode": "imported", "leak": True}, steps, "imported, other thread", thread=True, cfg=c, repeat=2)
        if i % 2 == 0:
            steps = [{"op": "name", "v": m} for m in pick]
            fresh[add({**base, "mode": "fresh"}, steps, "not imported", cfg=c)] = (n, base)
    root = os.path.join(v.workdir(), "py-watch")
    os.makedirs(root)
    for i, (what, src) in enumerate(WATCH.items()):
        n = f"zzw{i}"
        with open(os.path.join(root, n + ".py"), "w") as f:
            f.write(src)
        for c in [None, {"include_private": True}] + [cfg() for _ in range(12 if v.THOROUGH else 3)]:
            base = {"roots": [n], "dir": root, "prefix": os.path.join(root, n), "mods": [n], "lazy": what == "lazy"}
            add({**base, "mode": "imported", "leak": True}, [{"op": "name", "v": n}], what, cfg=c, repeat=3)
            fresh[add({**base, "mode": "fresh"}, [{"op": "name", "v": n}], what, cfg=c)] = (n, base)
    for i, (what, src) in enumerate(BROKEN.items()):
        n = f"zzb{i}"
        os.makedirs(os.path.join(root, n))
        with open(os.path.join(root, n, "__init__.py"), "w") as f:
            f.write("def f(): ...\n")
        with open(os.path.join(root, n, "bad.py"), "w") as f:
            f.write(src)
        for req in ([n], [f"{n}.bad"], [f"{n}.bad.deeper"], [n, f"{n}.bad"], [f"{n}.bad", "zz_not_there"]):
            for c in (None, {"suppress_python_stdout": False, "suppress_python_stderr": True}, {"suppress_python_stderr": True}):
                base = {"roots": [n], "dir": root, "prefix": os.path.join(root, n), "mods": [n, f"{n}.bad"], "broken": True}
                fresh[add({**base, "mode": "fresh"}, [{"op": "name", "v": m} for m in req], f"broken: {what}", cfg=c)] = (n, base)
    stdlib = os.path.dirname(os.__file__)
    for n in STD:
        top = n.split(".")[0]
        base = {"roots": [top], "dir": w.root, "prefix": os.path.join(stdlib, top), "mods": [n], "mode": "imported", "warm": True, "keep": True}
        # the first generation imports the submodules
        add({**base, "mode": "fresh"}, [{"op": "name", "v": n}], "standard library (first)")
        add(base, [{"op": "name", "v": n}], "standard library", repeat=3)
        jobs[-2:] = [jobs[-2:]]
    for n in QUIET:
        if os.path.exists(os.path.join(realmods.SITE, n)) or os.path.exists(os.path.join(realmods.SITE, n + ".py")):
            base = {"roots": [n], "dir": realmods.SITE, "prefix": os.path.join(realmods.SITE, n), "mods": [n], "mode": "imported", "warm": True, "keep": True}
            add(base, [{"op": "name", "v": n}], "third-party package", repeat=3)
            # (the first generation imports the submodules)
            jobs[-1:] = [[{"id": None, "sys_path": [realmods.SITE], "steps": [{"op": "name", "v": n}], "model": False}, jobs[-1]]]

    def plain(item):
        n, base = item
        p = subprocess.run([v.PYTHON, "-B", os.path.join(v.LIB, "effects.py"), json.dumps(base)], capture_output=True, text=True, timeout=120, env=v.child_env(), cwd=os.path.dirname(root))
        try:
            return n, json.loads(p.stdout.splitlines()[-1])
        except (ValueError, IndexError):
            raise v.Infra(f"importing {n} alone: {p.stderr[-600:]}")

    alone = dict(v.pmap(plain, dict((n, (n, b)) for n, b in fresh.values()).values()))
    res = v.run_drv(jobs)
    for jid, (conf, steps, c, what) in info.items():
        x = res[jid]
        label = f"{[s.get('v', s['op']) for s in steps]} ({what}; {c})"
        detail = {"steps": steps, "configuration": c, "what": what, "sources": w.detail(conf["roots"][0])["sources"] if conf["roots"][0] in w.pkgs else WATCH.get(what) or BROKEN.get(what[8:])}
        rep.case((what, conf["roots"], repr(steps), repr(c)))
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(f"{label}: {str(x)[:1000]}")
        if x["status"] in ("crash", "hang", "panic") or any(y["status"] in ("crash", "hang", "panic") for t in x.get("threads") or [] for y in t):
            rep.violation(f"{label}: {x['status']}: {str(x.get('error') or x)[:300]}", detail)
            continue
        try:
            o = x["post"] if isinstance(x["post"], dict) else json.loads(x["post"])
            o["interpreter"]
        except (TypeError, ValueError, KeyError):
            rep.violation(f"{label}: Python code cannot run any more after the generation: {str(x.get('post'))[:300]}", detail)
            continue
        detail["observed"] = {k: o[k] for k in o if k != "attributes"}
        rep.count("generations watched")
        rep.count("objects watched", o["objects"])
        rep.count("parts of the interpreter's state compared", o["states"])
        for y in o["interpreter"][:3]:
            rep.violation(f"{label}: {y}", detail)
        if o["lost modules"]:
            rep.violation(f"{label}: modules were removed or replaced: {o['lost modules']}", detail)
        if conf["mode"] == "imported":
            rep.count("reference counts compared", o["objects"])
            # (reading an attribute calls a module's own `__getattr__`)
            o["calls"] = [y for y in o["calls"] if not y.endswith(":__getattr__")]
            if what == "loud parts":
                # (annotations are converted to text)
                o["calls"] = [y for y in o["calls"] if not y.endswith(".__str__")]
            if conf.get("warm"):
                # (the standard library's own hooks for attribute access; submodules that cannot be imported are tried again)
                o["calls"] = [y for y in o["calls"] if not y.endswith((":__dir__", ".__getattribute__", ".__getattr__", ":<module>"))]
            if o["calls"] or o["log"]:
                rep.violation(f"{label}: functions of the analysed modules were called: {collections.Counter(o['calls'] + o['log']).most_common(5)}", detail)
            for y in o["changed"][:3]:
                rep.violation(f"{label}: {y}", detail)
            if o["refs"]:
                rep.violation(f"{label}: references are kept: {o['refs'][:3]}", detail)
            if o.get("leaks"):
                rep.count("objects that had to be released", o["leaks"][1])
                if o["leaks"][0]:
                    rep.violation(f"{label}: kept alive after the generation: {o['leaks'][0][:4]}", detail)
        elif jid in fresh:
            n, base = fresh[jid]
            a = alone[n]
            rep.count("functions started during the import", o["ncalls"])
            extra = collections.Counter(o["calls"]) - collections.Counter(a["calls"])
            extra = {k: x for k, x in extra.items() if not k.endswith(":__getattr__") and not (what == "loud parts" and k.endswith(".__str__"))}
            if conf.get("broken"):
                # (Python forgets a module that failed: every request tries again)
                extra = {k: x for k, x in extra.items() if k not in a["calls"]}
            if extra:
                rep.violation(f"{label}: more is executed than by importing the modules once: {sorted(extra.items())[:5]}", detail)
            extra = collections.Counter(o["log"]) - collections.Counter(a["log"])
            if extra:
                rep.violation(f"{label}: more is called than by importing the modules: {sorted(extra.items())[:5]}", detail)
            more = [m for m in o["new modules"] if m not in a["modules"] and m.split(".")[0] not in IMPORTED]
            if more and not conf.get("broken"):
                rep.violation(f"{label}: other modules were imported: {more[:5]}", detail)
            for m, attrs in o["attributes"].items():
                if m not in a["attributes"]:
                    rep.violation(f"{label}: {m} was imported", detail)
                    continue
                rep.count("attribute sets compared with a plain import")
                want = a["attributes"][m]
                if set(attrs) - set(want) or any(f"{m}.{k}" not in a["attributes"] for k in set(want) - set(attrs)):
                    rep.violation(f"{label}: {m} has other attributes than after importing it: {sorted(set(attrs) ^ set(want))[:5]}", detail)
        rep.sample(what, {"request": steps, "configuration": c, "objects": o["objects"], "calls seen": o["ncalls"], "states": o["states"]}, 1)


# modules that the generation itself may import
IMPORTED = set(sys.stdlib_module_names)

v.main("C18", check)
