"""Awkward but importable Python code. Every snippet defines unusual attributes; `expect` names what must survive.

expect: {"fns": {name: [params]}, "cls": {name: {method: [params]}}} in the module that contains the snippet.
Names start with `zz` / `Zz`, so that they do not collide with generated packages.
"""

S = []


def add(name, src, fns=None, cls=None, unreadable=False):
    S.append({"name": name, "src": src.strip("\n"), "expect": {"fns": fns or {}, "cls": cls or {}}, "unreadable": unreadable})


# ---------------------------------------------------------------- names
for i, n in enumerate([
    "", " ", "not an ident", "1abc", "a-b", "a.b", "a\nb", "\t", "self", "Self", "super", "crate", "_", "__", "'", '"', "\\", "{", "}", "r#x", "é", "e\u0301",
    "\u00aa", "ﬁ", "\u200b", "日本", "x" * 3000, "fn", "match", "union", "gen", "\0", "a\0b", "//", "/*", "*/", "#", "?", "a b", "\U0001f600", "$", "'a", "::", "a::b",
    "123", "-", "λ", "\u2028", "None", "True", "async", "\ud800", "zz\udfff",
]):
    add(f"name {i}", f"globals()[{n!r}] = lambda a: a\nclass ZzN{i}:\n    def ok(self, a): return a\nsetattr(ZzN{i}, {n!r}, lambda self, q: q)", cls={f"ZzN{i}": {"ok": ["p_a"]}})
    add(f"class name {i}", f"globals()[{n!r}] = type('Dyn{i}', (), {{}})\ndef zz_c{i}(a, b): return a", fns={f"zz_c{i}": ["p_a", "p_b"]})
    add(f"value name {i}", f"globals()[{n!r}] = 5\ndef zz_v{i}(a, b): return a", fns={f"zz_v{i}": ["p_a", "p_b"]})
    add(f"own name {i}", f"""
def zz_renamed{i}(a): return a
try: zz_renamed{i}.__name__ = {n!r}
except Exception: pass
class ZzR{i}:
    def ok(self, a): return a
try: ZzR{i}.__name__ = {n!r}
except Exception: pass
""", fns={f"zz_renamed{i}": ["p_a"]})
    add(f"attr name {i}", f"""
class ZzP{i}:
    def ok(self, a): return a
    prop = property(lambda self: 1)
setattr(ZzP{i}, {n!r}, property(lambda self: 1, lambda self, v: None))
""", cls={f"ZzP{i}": {"ok": ["p_a"], "prop": []}})

# ---------------------------------------------------------------- metadata of callables
for i, x in enumerate(["5", "None", "b'x'", "object()", "[]", "type('D', (), {'__str__': lambda s: 1 / 0})()", "type('D', (str,), {})('doc')", "'\\ud800'", "'a\\0b'",
                       "'*/ /* {} \\\\ \"'", "'\\u202e'", "'x' * 200000", "'\\r'", "'\\n' * 500", "'`' * 5000",
                       "'a' + 'é' * 40000", "'é' * 70001", "'ab' + '日本' * 30000", "'\U0001f600' * 40000", "'abc' + '\U0001f600' * 70000", "'x' * 70000 + 'é'", "'é\\n' * 9000", "'日' * 1500 + ' ' + 'é' * 3000"]):
    add(f"doc {i}", f"""
def zz_doc{i}(a): return a
zz_doc{i}.__doc__ = {x}
class ZzDoc{i}:
    def ok(self, a): return a
try: ZzDoc{i}.__doc__ = {x}
except Exception: pass
""", fns={f"zz_doc{i}": ["p_a"]}, cls={f"ZzDoc{i}": {"ok": ["p_a"]}})
for i, x in enumerate(["None", "5", "''", "'no.such.module'", "'.'", "'..a'", "'a b'", "object()", "'typing'", "'1x.y'", "'\\ud800'"]):
    # such objects do not belong to the module (or to nothing at all), so only the others have to survive
    add(f"module of {i}", f"""
def zz_mod{i}(a): return a
zz_mod{i}.__module__ = {x}
class ZzMod{i}:
    def inner(self, a): return a
try: ZzMod{i}.__module__ = {x}
except Exception: pass
class ZzHolder{i}:
    def ok(self, a): return a
    def odd(self, a): return a
    odd.__module__ = {x}
""", cls={f"ZzHolder{i}": {"ok": ["p_a"]}})
ANNS = ["list[()]", "dict[()]", "set[()]", "frozenset[()]", "type[()]", "tuple[()]", "dict[int]", "dict[int, str, bool]", "list[int, str]", "_zz_abc.Iterable[()]", "_zz_abc.Callable[[], None]", "_zz_abc.Callable[..., int]", "_zz_ty.GenericAlias(list, ())", "_zz_ty.GenericAlias(5, (int,))", "_zz_ty.GenericAlias(dict, ((),))", "_zz_ty.GenericAlias('x', '[')", "_zz_ty.GenericAlias(_zz_abc.Callable, ())", "tuple[tuple[()], ...]", "list['list[']", "list[5]", "list[[int]]", "list[...]", "int | list[()]", "None | list['a[']"] + ["5", "None", "lambda: 0", "[int, str]", "{'a': int}", "...", "NotImplemented", "int.__add__", "print", "b'int'", "'['", "']'", "'a['", "'a]'", "'list[list[int'", "''", "' '",
        "'int |'", "'| int'", "'|'", "','", "'dict[,]'", "'dict[]'", "'tuple[]'", "'Union[]'", "'Optional[]'", "'Callable[[], ]'", "'Callable[..., '", "'\\ud800'", "'\\0'",
        "'a' * 10000", "'list[' * 60 + 'int' + ']' * 60", "'Foo.Bar[int, [str]]'", "'1 + 1'", "'lambda: 0'", "'import os'", "\"<class '>\"", "\"<class ''>\"", "\"<enum '>\"", "_zz_t.Literal[\"<class '>\"]", "_zz_t.Literal['list[', ']']", "_zz_t.TypeAliasType('int', str)", "_zz_t.TypeAliasType('', str)", "'<class>'", "'::'", "'a::b'", "'r#fn'", "'fn'", "'self'", "'x.fn.y'",
        "type('R', (), {'__repr__': lambda s: 1 / 0})()", "type('R', (), {'__repr__': lambda s: 'list['})()", "type('R', (), {'__repr__': lambda s: '\\n{}'})()",
        "type('R', (), {'__str__': lambda s: 1 / 0})()", "type('R', (), {'__module__': None})", "type('R', (), {'__module__': 5})",
        "type('R', (), {'__module__': 'a b', '__qualname__': 'x y'})", "_zz_t.Literal[1, 'a', None]", "_zz_t.Annotated[int, 'meta']", "_zz_t.ClassVar[int]", "_zz_t.Final",
        "_zz_t.TypeVar('T')", "_zz_t.Generic", "_zz_t.Protocol", "_zz_t.NoReturn", "_zz_t.Self", "_zz_t.Never", "_zz_t.Concatenate[int, ...]", "_zz_t.Unpack[tuple[int, ...]]",
        "_zz_t.ForwardRef('x')", "_zz_t.Tuple[()]", "tuple[()]", "_zz_t.Callable", "_zz_t.Callable[[], None]", "_zz_t.Type", "_zz_t.Dict", "_zz_t.Dict[str, 'Undefined']",
        "_zz_t.List['list_']", "_zz_t.Optional['Foo']", "_zz_t.Union[int, 'a_']", "_zz_t.Mapping", "_zz_t.Counter[str]", "_zz_t.Deque[int]", "_zz_t.DefaultDict[str, int]",
        "_zz_t.Iterator[int]", "_zz_t.Generator[int, str, None]", "_zz_t.AsyncIterator[int]", "_zz_t.Pattern[str]", "_zz_t.IO[str]", "_zz_t.Text", "_zz_t.AnyStr",
        "_zz_t.NewType('N', int)", "_zz_t.TypeAlias", "list[_zz_t.TypeVar('T')]", "type(None)", "type(...)", "type(print)", "type(_zz_t)", "_zz_t.NamedTuple('NT', [('a', int)])",
        "_zz_t.TypedDict('TD', {'a': int})", "_zz_t.Tuple[tuple(int for _ in range(40))]", "_zz_t.Union[tuple(type(f'U{i}', (), {}) for i in range(60))]",
        "type[int]", "type['x']", "_zz_t.Type['x']", "_zz_t.Type[_zz_t.Any]", "_zz_t.Type[_zz_t.Union[int, str]]", "memoryview", "range", "super", "property", "classmethod"]
# deeply nested types
ANNS += [f"__import__('functools').reduce(lambda t, _: {x}, range({n}), int)" for n in (40, 4000) for x in ("list[t]", "dict[str, t]", "tuple[t, int]", "_zz_ty.GenericAlias(_zz_abc.Callable, (t,))", "list[t] | None" if n < 100 else "set[t]")]
ANNS += [repr(f"{c}[{x}") for c in ("tuple", "dict", "list", "Optional", "Union", "Callable", "typing.Tuple", "int | tuple") for x in ("int]], str]", "]", "],", "int, ]str[]", "[int, str", "int], [str]]", ", ]", "'a]', \"[\"]", "(], )[]", "\u20ac]\u20ac]")]
ANNS += ["'list[' * 4000 + 'int' + ']' * 4000", "'dict[str, ' * 500 + 'int' + ']' * 500", "'tuple[int, ' * 40 + 'int' + ']' * 40", "'typing.' * 4000 + 'List'", "'collections.abc.' * 2000 + 'x'", "\"<class '\" * 3000 + 'int' + \"'>\" * 3000", "'None | ' * 4000 + 'int'", "'Callable[[' * 300 + 'int' + '], int]' * 300"]
for i, x in enumerate(ANNS):
    add(f"annotation {i}", f"""
import typing as _zz_t, types as _zz_ty, collections.abc as _zz_abc
def zz_ann{i}(a, b=1): return a
zz_ann{i}.__annotations__ = {{'a': {x}, 'return': {x}}}
class ZzAnn{i}:
    def ok(self, a): return a
    ok.__annotations__ = {{'a': {x}, 'return': {x}}}
    @property
    def prop(self): return 1
    prop.fget.__annotations__ = {{'return': {x}}}
    @prop.setter
    def prop(self, v): pass
    prop.fset.__annotations__ = {{'v': {x}}}
""", fns={f"zz_ann{i}": ["p_a", "p_b"]}, cls={f"ZzAnn{i}": {"ok": ["p_a"], "prop": []}})
for i, x in enumerate(["5", "None", "'x'", "object()", "type('S', (), {})()", "_zz_i.Signature()", "_zz_i.Signature([_zz_i.Parameter('q', 4)])",
                       "_zz_i.Signature([_zz_i.Parameter('self', 1)])", "_zz_i.Signature([_zz_i.Parameter('z', 3, default=object)])"]):
    # a signature that is no signature makes the function uninspectable
    add(f"signature {i}", f"""
import inspect as _zz_i
def zz_sig{i}(a): return a
zz_sig{i}.__signature__ = {x}
class ZzSig{i}:
    def ok(self, a): return a
    def odd(self, a): return a
    odd.__signature__ = {x}
""", cls={f"ZzSig{i}": {"ok": ["p_a"]}})
for i, x in enumerate(["type('D', (), {'__repr__': lambda s: 1 / 0})()", "type('D', (), {'__eq__': lambda s, o: 1 / 0, '__hash__': None})()", "...", "float('nan')",
                       "type('D', (), {'__bool__': lambda s: 1 / 0})()", "type('D', (), {'__getattribute__': lambda s, n: 1 / 0})()"]):
    add(f"default {i}", f"def zz_def{i}(a={x}, *, k={x}): return a\nzz_defv{i} = {x}", fns={f"zz_def{i}": ["p_a", "p_k"]})

# ---------------------------------------------------------------- names that are already in use
for i, k in enumerate([0, 1, 2, 3, 11]):
    names = lambda b: [b] + [f"{b}{j}" for j in range(1, k + 1)]
    src = f"class ZzUsed{i}:\n    def __init__(self, a): pass\n    def __call__(self, a): pass\n    def ok(self, a): return a\n"
    src += "".join(f"    def {n}(self, q): pass\n" for b in ("call", "new") for n in names(b))
    src += f"class ZzUsedProps{i}:\n    def __init__(self, a): pass\n    def __call__(self, a): pass\n    def ok(self, a): return a\n"
    src += "".join(f"    {n} = property(lambda self: 1, lambda self, v: None)\n" for b in ("call", "new") for n in names(b))
    src += f"class ZzUsedGet{i}:\n    x = property(lambda self: 1, lambda self, v: None)\n    def ok(self, a): return a\n"
    src += "".join(f"    def {p}x{n}(self): pass\n" for p in ("get_", "set_", "") for n in [""] + [str(j) for j in range(1, k + 1)])
    src += f"def zz_used{i}(a): return a\n"
    add(f"used names {i}", src, fns={f"zz_used{i}": ["p_a"]}, cls={f"ZzUsed{i}": {"ok": ["p_a"], **{n: ["p_q"] for b in ("call", "new") for n in names(b)}}, f"ZzUsedProps{i}": {"ok": ["p_a"]}, f"ZzUsedGet{i}": {"ok": ["p_a"]}})

# ---------------------------------------------------------------- objects that stop answering, in every place
_k = 0
for attr in ["__doc__", "__module__", "__name__", "__qualname__", "__class__", "__dict__", "__signature__", "__wrapped__", "__annotations__", "__defaults__", "__call__", "__get__", "__origin__", "__args__", "__bool__", "__type_params__",
             "fget", "fset", "__func__", "__self__", "__text_signature__", "__code__", "__mro__", "__isabstractmethod__", "__set_name__", "__name", "*"]:
    for does in ["raise RuntimeError(n)", "raise AttributeError(n)", "return 5", "raise _ZzMoodBase@(n)"]:
        if attr == "*" and does == "return 5":
            continue
        cond = "True" if attr == "*" else f"n == {attr!r}"
        src = f"""
import typing as _zz_t, functools as _zz_f
class _ZzMoodBase@(BaseException): pass
class _ZzMood@:
    on = False
    def __init__(self, *a): pass
    def __call__(self, *a): return 1
    def __getattribute__(self, n):
        if _ZzMood@.on and {cond}: {does}
        return object.__getattribute__(self, n)
class _ZzMoodProp@(property):
    def __getattribute__(self, n):
        if _ZzMood@.on and {cond}: {does}
        return property.__getattribute__(self, n)
class ZzMoody@:
    got = property(_ZzMood@())
    both = property(lambda self: 1, _ZzMood@())
    own = _ZzMoodProp@(lambda self: 1)
    cmeth = classmethod(_ZzMood@())
    smeth = staticmethod(_ZzMood@())
    part = _zz_f.partialmethod(_ZzMood@())
    attr = _ZzMood@()
    def dflt(self, a=_ZzMood@()): return a
    def anno(self, a: _ZzMood@()) -> _ZzMood@(): return a
    def ok(self, a): return a
zz_mood@ = _ZzMood@()
zz_moodpart@ = _zz_f.partial(_ZzMood@())
def zz_mooddef@(a=_ZzMood@()): return a
def zz_moodwrap@(a): return a
zz_moodwrap@.__wrapped__ = _ZzMood@()
def zz_moodok@(a): return a
_ZzMood@.on = True
""".replace("@", str(_k))
        add(f"object whose {attr}: {does.replace('@', '')}", src, fns={f"zz_moodok{_k}": ["p_a"], f"zz_mooddef{_k}": ["p_a"]}, cls={f"ZzMoody{_k}": {"ok": ["p_a"]}}, unreadable=True)
        _k += 1

# ---------------------------------------------------------------- kinds of objects
add("builtin functions", "zz_len = len\nzz_print = print\nfrom math import sin as zz_sin\nfrom operator import itemgetter as _zz_ig\nzz_ig = _zz_ig(1)\ndef zz_bf(a): return a", fns={"zz_bf": ["p_a"]})
add("callables", """
import functools as _zz_f
@_zz_f.lru_cache
def zz_cached(a): return a
@_zz_f.singledispatch
def zz_single(a): return a
zz_partial = _zz_f.partial(zz_cached, 1)
class _ZzCallable:
    def __call__(self, x): return x
zz_instance = _ZzCallable()
zz_bound = zz_instance.__call__
zz_static = staticmethod(lambda a: a)
zz_classm = classmethod(lambda c, a: a)
zz_prop = property(lambda s: 1)
zz_method_descriptor = str.join
zz_wrapper = int.__add__
zz_new = object.__new__
zz_type_call = type.__call__
zz_type_new = type.__new__
def zz_after(a): return a
""", fns={"zz_after": ["p_a"]})
add("async", """
async def zz_async(a): return a
async def zz_asyncgen(a): yield a
def zz_gen(a): yield a
""", fns={"zz_async": ["p_a"], "zz_asyncgen": ["p_a"], "zz_gen": ["p_a"]})
add("descriptors", """
import functools as _zz_f
class _ZzData:
    def __get__(self, o, t=None): return 1
    def __set__(self, o, v): pass
class _ZzRaise:
    def __get__(self, o, t=None): raise RuntimeError('descriptor')
class ZzDesc:
    data = _ZzData()
    cached = _zz_f.cached_property(lambda self: 1)
    part = _zz_f.partialmethod(lambda self, a, b: a, 1)
    nogetter = property()
    onlyset = property(None, lambda self, v: None)
    builtinprop = property(len)
    partialprop = property(_zz_f.partial(lambda a, self: a, 1))
    docprop = property(lambda self: 1, doc='doc')
    intdoc = property(lambda self: 1, doc=5)
    novalue = property(lambda self: 1, lambda: None)
    def ok(self, a): return a
    def __call__(self, *a): pass
class ZzRaising:
    bad = _ZzRaise()
    def ok(self, a): return a
""", cls={"ZzDesc": {"ok": ["p_a"], "docprop": []}}, unreadable=True)
add("method kinds", """
class ZzKinds:
    def noself(): pass
    def varself(*args): pass
    def kwself(**kw): pass
    def poself(self, /): pass
    def defself(self=None): pass
    def named(this, a): pass
    @classmethod
    def c1(*args): pass
    @classmethod
    def c2(cls): pass
    @staticmethod
    def s0(): pass
    @staticmethod
    def s1(self): pass
    builtin = len
    tp = int
    lam = lambda self, x: x
    def __init__(*args, **kw): pass
    def __call__(*args, **kw): pass
    def ok(self, a): return a
""", cls={"ZzKinds": {"ok": ["p_a"]}})
add("special classes", """
import enum as _zz_e, typing as _zz_t, collections as _zz_c, dataclasses as _zz_d, abc as _zz_a, ctypes as _zz_ct
class ZzEnum(_zz_e.Enum):
    A = 1
    fn = 2
    def ok(self, a): return a
class ZzFlag(_zz_e.IntFlag):
    X = 1
ZzNT = _zz_c.namedtuple('ZzNT', ['a', 'type', 'count'], rename=True)
class ZzNT2(_zz_t.NamedTuple):
    a: int = 1
    def ok(self, a): return a
class ZzTD(_zz_t.TypedDict):
    a: int
class ZzProto(_zz_t.Protocol):
    def ok(self, a): ...
_zz_T = _zz_t.TypeVar('_zz_T')
class ZzGen(_zz_t.Generic[_zz_T]):
    def ok(self, a: _zz_T) -> _zz_T: return a
@_zz_d.dataclass(frozen=True, slots=True)
class ZzFrozen:
    a: int
    b: 'list[' = None
    def ok(self, a): return a
class ZzStruct(_zz_ct.Structure):
    _fields_ = [('x', _zz_ct.c_int), ('type', _zz_ct.c_int)]
class ZzMeta(type):
    def __call__(cls, *a): return None
    def ok(cls, a): return a
class ZzWithMeta(metaclass=ZzMeta):
    def ok(self, a): return a
class ZzExc(BaseException):
    def ok(self, a): return a
class ZzInt(int):
    def ok(self, a): return a
class ZzType(type): pass
class ZzSlots:
    __slots__ = ('a', 'type')
    def ok(self, a): return a
""", cls={k: {"ok": ["p_a"]} for k in ("ZzNT2", "ZzProto", "ZzGen", "ZzFrozen", "ZzMeta", "ZzWithMeta", "ZzExc", "ZzInt", "ZzSlots")})
# (compiled on its own: CPython 3.12 mangles `__names` of whatever follows a generic class)
add("new style type syntax", """
exec('''
type ZzAlias[T] = list[T]
type ZzRec = list[ZzRec] | int
def zz_generic[T: int](a: T, b: ZzAlias[T], c: ZzRec) -> T: return a
class ZzGeneric[T, *Ts, **P]:
    def ok(self, a: T) -> T: return a
''')
""", fns={"zz_generic": ["p_a", "p_b", "p_c"]}, cls={"ZzGeneric": {"ok": ["p_a"]}})
add("future annotations", """
def zz_fut(a: 'ZzLater', b: 'list[ZzLater]', c: 'dict[str, ZzLater] | None') -> 'ZzLater': return a
class ZzLater:
    def ok(self, a: 'ZzLater') -> 'Undefined.Name[int]': return a
""", fns={"zz_fut": ["p_a", "p_b", "p_c"]}, cls={"ZzLater": {"ok": ["p_a"]}})
add("mocks", """
import unittest.mock as _zz_m
zz_mock = _zz_m.MagicMock()
zz_mock2 = _zz_m.Mock(spec=dict)
ZzMockCls = _zz_m.create_autospec(dict)
def zz_nm(a): return a
""", fns={"zz_nm": ["p_a"]})
add("everything object", """
class _ZzAll:
    def __getattr__(self, n): return self
    def __call__(self, *a, **k): return self
    def __iter__(self): return iter(())
    def __len__(self): return 0
    def __bool__(self): return False
    def __eq__(self, o): return True
    def __hash__(self): return 1
zz_all = _ZzAll()
def zz_ao(a): return a
""", fns={"zz_ao": ["p_a"]})
add("hostile objects", """
class _ZzHost:
    def __getattribute__(self, n): raise RuntimeError(n)
zz_host = _ZzHost()
class _ZzHostRepr:
    def __repr__(self): raise RuntimeError
    __str__ = __repr__
zz_hostrepr = _ZzHostRepr()
class _ZzHostClass:
    @property
    def __class__(self): raise RuntimeError
zz_hostclass = _ZzHostClass()
class _ZzHostModule:
    @property
    def __module__(self): raise RuntimeError
zz_hostmodule = _ZzHostModule()
class _ZzHostBool:
    def __bool__(self): raise RuntimeError
    def __eq__(self, o): raise RuntimeError
    __hash__ = None
zz_hostbool = _ZzHostBool()
class _ZzHostBase(BaseException): pass
class _ZzHostKill:
    def __getattribute__(self, n): raise _ZzHostBase(n)
zz_hostkill = _ZzHostKill()
def zz_ah(a): return a
""", fns={"zz_ah": ["p_a"]}, unreadable=True)
add("hostile metaclass", """
class _ZzM(type):
    def __dir__(cls): return ['ok', 'missing', 5, None, 'ok']
    def __getattr__(cls, n): raise AttributeError(n)
try:
    class ZzHm(metaclass=_ZzM):
        def ok(self, a): return a
except Exception: pass
class _ZzM2(type):
    def __dir__(cls): raise RuntimeError
class ZzHm2(metaclass=_ZzM2):
    def ok(self, a): return a
class _ZzM3(type):
    def __getattribute__(cls, n):
        if n == '__doc__': raise RuntimeError
        return type.__getattribute__(cls, n)
class ZzHm3(metaclass=_ZzM3):
    def ok(self, a): return a
class _ZzM4(type):
    def __instancecheck__(cls, o): raise RuntimeError
    def __subclasscheck__(cls, o): raise RuntimeError
    def __eq__(cls, o): raise RuntimeError
    __hash__ = None
    def __repr__(cls): raise RuntimeError
class ZzHm4(metaclass=_ZzM4):
    def ok(self, a): return a
def zz_hm(a): return a
""", fns={"zz_hm": ["p_a"]}, unreadable=True)
add("missing attribute", """
class ZzMiss:
    def ok(self, a): return a
    @property
    def __dict__(self): raise RuntimeError
class _ZzMissMeta(type):
    def __dir__(cls): return ['ok', 'absent', '__init__']
class ZzMiss2(metaclass=_ZzMissMeta):
    def ok(self, a): return a
""", cls={"ZzMiss": {"ok": ["p_a"]}, "ZzMiss2": {"ok": ["p_a"]}}, unreadable=True)
add("modules as attributes", """
import sys as zz_sys, os as zz_os, types as _zz_t
zz_fake = _zz_t.ModuleType('zz_fake')
zz_noname = _zz_t.ModuleType('x')
del zz_noname.__name__
zz_badname = _zz_t.ModuleType('x')
zz_badname.__name__ = 5
zz_empty = _zz_t.ModuleType('')
class _ZzMod(_zz_t.ModuleType):
    def __getattr__(self, n): raise RuntimeError
zz_raising = _ZzMod('zz_raising')
zz_self = zz_sys.modules[__name__]
zz_main = zz_sys.modules['__main__']
def zz_ma(a): return a
""", fns={"zz_ma": ["p_a"]}, unreadable=True)
add("recursive classes", """
class ZzRec1:
    def ok(self, a): return a
ZzRec1.me = ZzRec1
ZzRec1.Inner = ZzRec1
class ZzNest:
    class A:
        class B:
            class C:
                def deep(self): pass
    def ok(self, a: 'ZzNest.A.B.C'): return a
""", cls={"ZzRec1": {"ok": ["p_a"]}, "ZzNest": {"ok": ["p_a"]}})
add("many parameters", "exec('def zz_many(' + ', '.join(f'a{i}: int = 0' for i in range(300)) + '): pass')\n"
    "exec('class ZzMany:\\n' + ''.join(f'    def m{i}(self, x): pass\\n' for i in range(300)))", fns={"zz_many": [f"p_a{i}" for i in range(300)]},
    cls={"ZzMany": {f"m{i}": ["p_x"] for i in range(300)}})
add("parameter names", "\n".join(f"def zz_par{i}({p}): pass" for i, p in enumerate(["self", "cls", "_, __", "self, /, Self, crate, super", "fn, impl, match, type", "py, p_value, p_py", "größe, 变量",
    "args, kwargs, *self, **crate", "__x, __y__, _", "*, self", "Self=1", "a, /, b, *, c", "*_, **__"])),
    fns={"zz_par4": ["p_fn", "p_impl", "p_match", "p_type"], "zz_par5": ["p_py", "p_p_value", "p_p_py"], "zz_par6": ["p_größe", "p_变量"], "zz_par11": ["p_a", "p_b", "p_c"],
         "zz_par2": ["p__", "p___"], "zz_par3": ["p___unknown_self__", "p_Self", "p_crate", "p_super"]})
add("hijacked builtins", """
def type(a): return a
def dir(a): return a
def str(a): return a
def getattr(a, b): return a
list = None
__builtins__ = {}
""" if False else "zz_x = 1")
add("numbers", "zz_big = 2 ** 4000\nzz_nan = float('nan')\nzz_bytes = bytes(10**5)\nzz_deep = []\nfor _zz_i in range(5000): zz_deep = [zz_deep]\ndef zz_nu(a): return a", fns={"zz_nu": ["p_a"]})
add("weird values", """
import threading as _zz_th, re as _zz_re, weakref as _zz_w
zz_lock = _zz_th.Lock()
zz_re = _zz_re.compile('x')
class _ZzTarget: pass
_zz_target = _ZzTarget()
zz_proxy = _zz_w.proxy(_zz_target)
_zz_dead_t = _ZzTarget()
zz_dead = _zz_w.proxy(_zz_dead_t)
del _zz_dead_t
zz_gen = (x for x in ())
zz_code = (lambda: 0).__code__
zz_frame = __import__('sys')._getframe()
zz_tb = None
zz_slice = slice(1)
zz_mv = memoryview(b'')
zz_dictview = {}.keys()
zz_mapping = type.__dict__
zz_cell = (lambda: zz_cell).__closure__
def zz_wv(a): return a
""", fns={"zz_wv": ["p_a"]}, unreadable=True)

# ---------------------------------------------------------------- whole modules
MODULES = {
    "all tuple": "__all__ = ('f', 'C')", "all string": "__all__ = 'f'", "all none": "__all__ = None", "all int": "__all__ = 5", "all mixed": "__all__ = ['f', 5, None, 'missing', '', 'a b']",
    "all generator": "__all__ = (x for x in ['f'])", "all duplicate": "__all__ = ['f', 'f', 'C', 'C', 'f']", "all raising": "class _A(list):\n    def __iter__(self): raise RuntimeError\n__all__ = _A(['f'])",
    "doc int": "__doc__ = 5", "doc hostile": "class _D(str):\n    def __str__(self): raise RuntimeError\n__doc__ = _D('x')", "no doc": "del __doc__", "doc surrogate": "__doc__ = '\\ud800'",
    "name changed": None, "getattr": "def __getattr__(n):\n    return 5", "getattr raising": "def __getattr__(n):\n    raise RuntimeError(n)",
    "dir short": "def __dir__():\n    return ['f', 'C', 'V', 'sub']", "dir extra": "def __dir__():\n    return ['f', 'C', 'V', 'sub', 'missing', 'a b', '']",
    "file none": "__file__ = None", "spec none": "__spec__ = None", "package none": "__package__ = None", "loader none": "__loader__ = None",
    "path list": "__path__ = list(__path__)", "path twice": "__path__ = list(__path__) * 2", "path extra": "__path__ = list(__path__) + ['/nonexistent/zz', '']",
    "lazy sub": "def __getattr__(n):\n    if n == 'lazy':\n        import importlib\n        return importlib.import_module(__name__ + '.sub')\n    raise AttributeError(n)",
    "sub shadowed by function": "from . import sub as _s\ndef other(): pass", "empty dir": "def __dir__():\n    return []",
    "dict mutated": "class _Mut:\n    @property\n    def __module__(self):\n        globals()['zz_new_attr'] = 1\n        return __name__\nzz_mut = _Mut()",
    "annotations": "__annotations__ = {'V': 'list['}", "annotations int": "__annotations__ = 5",
    "prints": "print('x' * 100000)\nimport sys\nsys.stderr.write('y' * 100000)", "warns": "import warnings\nwarnings.warn('x')",
    "recursion": "import sys\nsys.setrecursionlimit(400)",
}
SUBMODULES = {
    "raises": "raise ValueError('x')", "syntax error": "def (", "system exit": "raise SystemExit(3)", "keyboard": "raise KeyboardInterrupt", "import error": "import zz_no_such_module_x",
    "null byte": "x = '\\0'", "bad encoding": None, "base exception": "class E(BaseException): pass\nraise E", "replaces itself": "import sys\nsys.modules[__name__] = 5",
    "replaces itself with object": "import sys\nclass O:\n    def f(self): pass\nsys.modules[__name__] = O()", "deletes itself": "import sys\ndel sys.modules[__name__]",
    "renames itself": "__name__ = 'other.name'", "deletes name": "del __name__", "hostile str": "class E(Exception):\n    def __str__(self): raise RuntimeError\nraise E()",
    "recursion": "def r(): return r()\nr()", "stop iteration": "raise StopIteration", "circular": "import {root}\nfrom {root} import f, missing_name", "stdout closed": "import sys\nsys.stdout = None",
    "none name": "__name__ = None", "exits in atexit": "import atexit", "generator exit": "raise GeneratorExit", "memory": "raise MemoryError", "unraisable": "class D:\n    def __del__(self): raise ValueError\nD()",
}
BASE = """
def f(a, b=1, *args, k, **kwargs): return a
class C:
    def __init__(self, x): self.x = x
    def m(self, y): return y
    @property
    def p(self): return 1
V = 5
"""
