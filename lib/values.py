"""Conforming values for annotations, and comparison of what arrived with what was sent."""
import datetime
import ipaddress
import math
import pathlib
import string

INTS = [0, 1, -1, 2, 255, 256, -128, 2**31 - 1, -(2**31), 2**31, 2**53 + 1, 2**63 - 1, -(2**63), 10**12]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e308, 5e-324, float("inf"), float("-inf"), 0.1, 1 / 3, float("nan"), 3.0]
STRS = ["", "a", "größe", "日本語", "😀", "line\nbreak", "tab\t", "nul\0byte", "quote'\"", "back\\slash", "{}", "%s", " ", "\u2028", "None", "r#type"]
BYTES = [b"", b"a", b"\0", bytes(range(256)), b"xyz" * 20, b"\xff\xfe"]


class Marker:
    """An opaque object with identity."""

    def __repr__(self):
        return f"<Marker {id(self):#x}>"


def anything(r):
    return r.choice([
        Marker(), r.choice(INTS), r.choice(STRS), None, True, [1, Marker()], {"k": Marker()}, (1, 2), 1.5, Marker, len, b"b", 2**100,
        set(), frozenset([1]), ..., NotImplemented, (lambda: 0), range(3), Exception("x"), object(),
    ])


def gen(r, a, classes, depth=0):
    """A value conforming to annotation `a` (a node or None)."""
    if a is None:
        return anything(r)
    k = a[0]
    sub = lambda x: gen(r, x, classes, depth + 1)
    # (mostly few elements, sometimes so many that no fixed capacity holds them)
    many = lambda x, n=3: [sub(x) for _ in range(r.choice([0, 1, 2, n]) if depth or r.random() < 0.93 else r.choice([8, 17, 33, 65, 300]))]
    if k == "bool":
        return r.choice([True, False])
    if k == "int":
        return r.choice(INTS) if r.random() < 0.6 else r.randint(-10**9, 10**9)
    if k == "float":
        return r.choice(FLOATS) if r.random() < 0.6 else r.uniform(-1e6, 1e6)
    if k == "str":
        return r.choice(STRS) if r.random() < 0.6 else "".join(r.choice(string.printable + "éß漢") for _ in range(r.randint(0, 30)))
    if k == "bytes":
        return r.choice(BYTES)
    if k == "bytearray":
        return bytearray(r.choice(BYTES))
    if k in ("any", "object"):
        return anything(r)
    if k == "none":
        return None
    if k == "date":
        return r.choice([datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(2024, 2, 29)])
    if k == "datetime":
        return r.choice([datetime.datetime(1970, 1, 1), datetime.datetime(2024, 2, 29, 23, 59, 59, 999999),
                         datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc)])
    if k == "time":
        return r.choice([datetime.time(), datetime.time(23, 59, 59, 1), datetime.time(1, tzinfo=datetime.timezone.utc)])
    if k == "timedelta":
        return r.choice([datetime.timedelta(), datetime.timedelta(-1, 5, 7), datetime.timedelta(days=999999999)])
    if k == "type":
        return r.choice([int, str, Marker, type, object])
    if k == "callable":
        return r.choice([lambda *a: a, anything, gen])
    if k == "complex":
        return r.choice([0j, 1 + 2j, complex(float("inf"), -0.0)])
    if k == "slice":
        return r.choice([slice(None), slice(1, 2, 3), slice("a", None)])
    if k == "ip4":
        return ipaddress.IPv4Address(r.choice(["0.0.0.0", "127.0.0.1", "255.255.255.255", "10.1.2.3"]))
    if k == "path":
        return pathlib.Path(r.choice(["", "/", "a/b.txt", "/tmp/größe", "with space", "..", "日本語/x", "a\nb", "-"]))
    if k == "bare_list":
        return [anything(r) for _ in range(r.randint(0, 3))]
    if k == "bare_tuple":
        return tuple(anything(r) for _ in range(r.randint(0, 3)))
    if k == "bare_dict":
        return {r.choice([1, "a", None, (1, 2), 2.5]): anything(r) for _ in range(r.randint(0, 3))}
    if k in ("bare_set", "bare_frozenset"):
        s = {r.choice([1, "a", None, (1, 2), 2.5, b"q"]) for _ in range(r.randint(0, 3))}
        return s if k == "bare_set" else frozenset(s)
    if k == "cls":
        return classes(tuple(a[1]))
    if k in ("list", "seq", "iterable"):
        return many(a[1])
    if k == "vtuple":
        return tuple(many(a[1]))
    if k in ("set", "frozenset"):
        el = [x for x in many(a[1]) if _hashable(x) and x == x]
        return set(el) if k == "set" else frozenset(el)
    if k == "dict":
        return {x: sub(a[2]) for x in many(a[1]) if _hashable(x) and x == x}
    if k == "tuple":
        return tuple(sub(x) for x in a[1:])
    if k == "opt":
        return None if r.random() < 0.35 else sub(a[1])
    if k == "union":
        return sub(r.choice(a[1:]))
    raise ValueError(k)


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


ATOMS = (bool, int, float, str, complex, type(None), datetime.date, datetime.time, datetime.timedelta, slice, ipaddress.IPv4Address,
         ipaddress.IPv6Address, range, pathlib.PurePath)


def same(sent, got):
    """What arrived is the value that was sent: equal and of the same type, recursively; other objects are identical."""
    if sent is got:
        return True
    if type(sent) is not type(got):
        return False
    t = type(sent)
    if t is float:
        return sent == got and math.copysign(1, sent) == math.copysign(1, got) or sent != sent and got != got
    if t in (bytes, bytearray):
        return sent == got
    if t in (list, tuple):
        return len(sent) == len(got) and all(same(x, y) for x, y in zip(sent, got))
    if t in (set, frozenset):
        return len(sent) == len(got) and all(any(same(x, y) for y in got) for x in sent)
    if t is dict:
        return len(sent) == len(got) and all(any(same(k, k2) and same(x, y) for k2, y in got.items()) for k, x in sent.items())
    if isinstance(sent, ATOMS):
        return sent == got
    return False


def similar(sent, got):
    """A returned value survived: like `same`, but sequences and sets may have changed their container type."""
    if sent is got:
        return True
    if isinstance(sent, (bytes, bytearray)) and isinstance(got, (bytes, bytearray, list)):
        return list(sent) == list(got)
    if isinstance(sent, pathlib.PurePath) and type(got) is str:
        return str(sent) == got
    if type(sent) in (list, tuple) and type(got) in (list, tuple):
        return len(sent) == len(got) and all(similar(x, y) for x, y in zip(sent, got))
    if type(sent) in (set, frozenset) and type(got) in (set, frozenset):
        return len(sent) == len(got) and all(any(similar(x, y) for y in got) for x in sent)
    if type(sent) is dict and type(got) is dict:
        return len(sent) == len(got) and all(any(similar(k, k2) and similar(x, y) for k2, y in got.items()) for k, x in sent.items())
    return same(sent, got)


def show(x, n=160):
    try:
        return repr(x)[:n]
    except Exception as e:
        return f"<unprintable {type(x)}: {e}>"
