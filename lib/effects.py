"""Watches what a generation does to the analysed modules and to the interpreter (runs inside of the driver)."""
import builtins
import gc
import importlib
import inspect
import io
import json
import os
import sys
import types

MON = sys.monitoring
TOOL = 4
state = None


class Watch:
    """Everything observable about some modules and the interpreter."""

    def __init__(self, roots, prefix):
        self.roots = tuple(roots)          # top-level packages
        self.prefix = prefix               # directory of their sources
        self.calls = []
        self.mods = {}
        self.objs = {}

    # ---------------------------------------------------------------- calls
    def start(self):
        MON.use_tool_id(TOOL, "effects")
        MON.restart_events()
        MON.register_callback(TOOL, MON.events.PY_START, self.on_start)
        MON.set_events(TOOL, MON.events.PY_START)

    def stop(self):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.PY_START, None)
        MON.free_tool_id(TOOL)

    def on_start(self, code, offset):
        if code.co_filename.startswith(self.prefix):
            if code.co_name.startswith("__"):
                caller = sys._getframe(1).f_back
                if caller is not None and caller.f_code.co_filename == inspect.__file__:
                    # (Python's own inspection of a signature compares and tests the objects that it meets)
                    return None
            self.calls.append(f"{code.co_filename[len(self.prefix):]}:{code.co_qualname}")
        else:
            # (the generation itself runs small pieces of code and uses the standard library)
            return MON.DISABLE

    # ---------------------------------------------------------------- attributes
    def own(self, name):
        return isinstance(name, str) and name.split(".")[0] in self.roots

    def objects(self):
        """All modules, classes and functions of the analysed packages."""
        seen, todo = {}, [m for n, m in list(sys.modules.items()) if self.own(n)]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            if isinstance(o, types.ModuleType):
                if not self.own(o.__name__):
                    continue
                seen[id(o)] = o
                todo += list(vars(o).values())
            elif isinstance(o, type):
                if not self.own(getattr(o, "__module__", None)):
                    continue
                seen[id(o)] = o
                todo += list(vars(o).values())
            elif isinstance(o, types.FunctionType):
                if not self.own(o.__module__):
                    continue
                seen[id(o)] = o
                todo += list(vars(o).values())
            elif isinstance(o, (classmethod, staticmethod)):
                seen[id(o)] = o
                todo.append(o.__func__)
            elif isinstance(o, property):
                seen[id(o)] = o
                todo += [o.fget, o.fset, o.fdel]
        return seen

    def content(self, o):
        d = {k: id(v) for k, v in vars(o).items()} if hasattr(o, "__dict__") else {}
        deep = {k: self.value(v) for k, v in vars(o).items()} if hasattr(o, "__dict__") else {}
        if isinstance(o, types.FunctionType):
            for n in ("__code__", "__defaults__", "__kwdefaults__", "__doc__", "__name__", "__qualname__", "__module__", "__closure__", "__globals__", "__type_params__"):
                d[n] = id(getattr(o, n))
            deep["__annotations__"] = [(k, id(v)) for k, v in o.__annotations__.items()]
        if isinstance(o, type):
            d["__bases__"] = [id(b) for b in o.__bases__]
        return d, deep, list(deep)

    def value(self, v):
        """The elements of containers (by identity)."""
        if type(v) in (list, tuple, set, frozenset):
            return [id(x) for x in v]
        if type(v) is dict:
            return [(id(k), id(x)) for k, x in v.items()]
        return id(v)

    def snapshot(self):
        self.objs = self.objects()
        self.keep = [list(vars(o).values()) for o in self.objs.values() if hasattr(o, "__dict__")]
        self.before = {i: self.content(o) for i, o in self.objs.items()}
        self.inter = interpreter()

    def refs(self):
        gc.collect()
        return {i: sys.getrefcount(o) for i, o in self.objs.items()}

    def changed(self):
        out = []
        now = self.objects()
        for i, o in now.items():
            if i not in self.before:
                out.append(f"new object {label(o)}")
                continue
            (a, da, oa), (b, db, ob) = self.before[i], self.content(o)
            for k in a.keys() | b.keys():
                if k not in a and k == "__annotations__" and isinstance(o, type) and not vars(o)[k]:
                    continue  # (CPython itself creates it when it is read)
                if k not in a:
                    out.append(f"{label(o)}: attribute {k} was added")
                elif k not in b:
                    out.append(f"{label(o)}: attribute {k} was removed")
                elif a[k] != b[k]:
                    out.append(f"{label(o)}: attribute {k} was replaced")
            for k in da.keys() & db.keys():
                if da[k] != db[k] and a.get(k) == b.get(k):
                    out.append(f"{label(o)}: the content of {k} was modified")
            if not out and oa != [k for k in ob if k in da]:
                out.append(f"{label(o)}: the order of the attributes was changed")
        for i in self.before.keys() - now.keys():
            out.append(f"{label(self.objs[i])} is no longer reachable")
        return out


def label(o):
    return f"{getattr(o, '__module__', '')}.{getattr(o, '__qualname__', getattr(o, '__name__', type(o).__name__))}"


def interpreter():
    """The state of the interpreter that a generation must leave alone: {what: (comparable, kept alive)}."""
    import _warnings
    import locale
    import random
    import signal
    import threading
    import warnings
    s = {}
    for n in dir(sys):
        if n in ("path_importer_cache", "modules", "exc_info", "last_exc", "_git", "monitoring", "gettotalrefcount", "getrefcount") or n.startswith("_") and n not in ("__stdout__", "__stderr__", "__stdin__", "__excepthook__", "__displayhook__"):
            continue
        v = getattr(sys, n)
        s[f"sys.{n}"] = (id(v), list(v)) if isinstance(v, list) else id(v)
    s["last exception"] = [id(getattr(sys, n, None)) for n in ("last_exc", "last_type", "last_value", "last_traceback")]
    for n in ("getswitchinterval", "getrecursionlimit", "gettrace", "getprofile", "getdefaultencoding", "getdlopenflags", "get_asyncgen_hooks", "get_coroutine_origin_tracking_depth", "get_int_max_str_digits", "is_finalizing"):
        v = getattr(sys, n)()
        s[f"sys.{n}()"] = v if isinstance(v, (int, float, str, bool, tuple)) else id(v)
    s["exc_info"] = sys.exc_info() == (None, None, None)
    s["builtins"] = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
    s["warnings"] = (list(warnings.filters), id(warnings.showwarning), id(warnings.formatwarning), id(warnings.filters), _warnings._defaultaction, dict(_warnings._onceregistry) if hasattr(_warnings, "_onceregistry") else 0)
    s["cwd"] = os.getcwd()
    s["environment"] = dict(os.environ)
    s["umask"] = os.umask(0o22)
    os.umask(s["umask"])
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signals"] = {k: str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1, signal.SIGXFSZ)}
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["threading hooks"] = (id(threading.excepthook), id(threading.gettrace()), id(threading.getprofile()))
    s["gc"] = (gc.isenabled(), gc.get_threshold(), [id(x) for x in gc.callbacks], gc.get_debug(), gc.get_freeze_count(), len(gc.garbage))
    s["random"] = hash(random.getstate())
    s["descriptors"] = sorted(os.listdir("/proc/self/fd"))[:-1] and len(os.listdir("/proc/self/fd"))
    logging = sys.modules.get("logging")
    if logging:
        s["logging"] = ([id(h) for h in logging.root.handlers], logging.root.level, logging.root.manager.disable, sorted(logging.root.manager.loggerDict))
    s["pending exception"] = __import__("ctypes").pythonapi.PyErr_Occurred()
    s["streams"] = [(x.closed, getattr(x, "encoding", None), getattr(x, "errors", None), getattr(x, "line_buffering", None)) if isinstance(x, io.TextIOBase) else id(x) for x in (sys.stdout, sys.stderr, sys.stdin)]
    s["cwd content"] = sorted(os.listdir("."))
    return s


def different(a, b):
    out = []
    for k in a.keys() | b.keys():
        if k == "logging" and k not in a:
            continue
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                keys = [q for q in x.keys() | y.keys() if x.get(q) != y.get(q)]
                out.append(f"{k} has changed: {keys[:5]}")
            else:
                out.append(f"{k} has changed: {str(x)[:200]} before, {str(y)[:200]} after")
    return out


def begin(conf):
    """`conf`: roots, dir, mods (all modules to import beforehand), warm (number of earlier generations)."""
    global state
    if conf["dir"] not in sys.path:
        sys.path.insert(0, conf["dir"])
    importlib.invalidate_caches()
    state = w = Watch(conf["roots"], conf["prefix"])
    w.conf = conf
    import inspect, pkgutil, typing, ctypes, locale, random, signal, threading, warnings  # noqa
    if conf["mode"] == "imported":
        for m in conf["mods"]:
            try:
                importlib.import_module(m)
            except BaseException:
                pass
    vrec = sys.modules.get("vrec")
    if vrec:
        vrec.LOG.clear()
    w.modules = dict(sys.modules)
    w.snapshot()
    w.first = w.refs()
    w.start()


def between():
    """After the first generation: caches are filled."""
    state.first = state.refs()


def end():
    w = state
    w.stop()
    out = {"calls": w.calls[:2000], "ncalls": len(w.calls), "objects": len(w.objs)}
    now = interpreter()
    out["interpreter"] = different(w.inter, now)
    out["states"] = len(now)
    vrec = sys.modules.get("vrec")
    out["log"] = [str(x[0]) for x in vrec.LOG][:50] if vrec else []
    if vrec:
        vrec.LOG.clear()
    out["new modules"] = sorted(k for k in sys.modules if k not in w.modules)
    out["lost modules"] = sorted(k for k in w.modules if sys.modules.get(k) is not w.modules[k])
    if w.conf["mode"] == "imported":
        out["changed"] = w.changed()
        refs = w.refs()
        out["refs"] = [f"{label(w.objs[i])}: {w.first[i]} references before, {refs[i]} after" for i in refs if refs[i] != w.first[i]]
    out["attributes"] = {n: sorted(k for k in vars(m) if isinstance(k, str)) for n, m in list(sys.modules.items()) if w.own(n)}
    if w.conf.get("leak"):
        out["leaks"] = w.leaks()
    if not w.conf.get("keep"):
        for n in list(sys.modules):
            if w.own(n):
                del sys.modules[n]
    return json.dumps(out)


def leaks(self):
    """Drops the modules: nothing may keep them or their classes and functions alive."""
    import weakref
    live = {}
    for i, o in self.objs.items():
        try:
            live[label(o) + f"@{i}"] = weakref.ref(o)
        except TypeError:
            pass
    for n in list(sys.modules):
        if self.own(n):
            del sys.modules[n]
    self.objs = self.before = self.keep = self.first = self.modules = self.mods = None
    o = None
    import typing
    for f in typing._cleanups:
        f()
    sys.path_importer_cache.clear()
    gc.collect()
    gc.collect()
    return sorted(k.rsplit("@", 1)[0] for k, r in live.items() if r() is not None), len(live)


Watch.leaks = leaks


def plain(conf):
    """What importing alone does (in a process of its own): started code and attributes."""
    sys.path.insert(0, conf["dir"])
    w = Watch(conf["roots"], conf["prefix"])
    import inspect, pkgutil, typing, ctypes, locale, random, signal, threading, warnings  # noqa
    before = set(sys.modules)
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    w.start()
    for m in conf["mods"]:
        try:
            importlib.import_module(m)
        except BaseException:
            pass
    w.stop()
    sys.stdout, sys.stderr = out, err
    vrec = sys.modules.get("vrec")
    print(json.dumps({"calls": w.calls, "log": [str(x[0]) for x in vrec.LOG] if vrec else [], "modules": sorted(set(sys.modules) - before),
                      "attributes": {n: sorted(k for k in vars(m) if isinstance(k, str)) for n, m in sys.modules.items() if w.own(n)}}))


if __name__ == "__main__":
    plain(json.loads(sys.argv[1]))
