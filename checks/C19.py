import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cold
import vcommon as v
import world

MONITOR = r'''
import builtins, gc, importlib, io, itertools, json, os, random, sys, threading, time, warnings
class M: pass
builtins.CON = CON = M()
CON.sched = None
builtins.GATE = lambda tok: CON.sched.step(tok) if CON.sched else None

class Sched:
    """Forces a total order on points of several threads."""
    def __init__(self, order): self.order, self.pos, self.cond, self.late = order, 0, threading.Condition(), []
    def step(self, tok):
        with self.cond:
            end = time.monotonic() + 5
            while True:
                # (another thread may have passed this point in the meantime)
                if tok not in self.order[self.pos:]:
                    return
                if self.order[self.pos] == tok:
                    break
                if not self.cond.wait(max(0.0, end - time.monotonic())) and time.monotonic() >= end:
                    self.late.append(tok)
                    self.order.remove(tok)
                    self.cond.notify_all()
                    return
            self.pos += 1
            self.cond.notify_all()
CON.Sched = Sched

def state():
    return (tuple(sys.path), os.getcwd(), id(builtins.__import__), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.getswitchinterval(), sys.getrecursionlimit(), id(sys.excepthook), id(sys.displayhook),
            sys.gettrace(), tuple(warnings.filters), gc.isenabled(), id(threading.excepthook), threading.gettrace(), dict(os.environ) == CON.env, sys.dont_write_bytecode, tuple(sys.argv), id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__))
NAMES = ("sys.path", "the working directory", "__import__", "sys.meta_path", "sys.path_hooks", "the switch interval", "the recursion limit", "sys.excepthook", "sys.displayhook", "the trace function", "the warning filters",
         "the garbage collector", "threading.excepthook", "threading's trace function", "the environment", "sys.dont_write_bytecode", "sys.argv", "sys.stdin", "sys.__stdout__", "sys.__stderr__")

class Background:
    """Other Python threads: everything they do must work as if no generation ran."""
    def __init__(self, kinds, interval, delay, seed, dir):
        self.stop, self.bad, self.n, self.seed, self.dir = False, [], 0, seed, dir
        self.streams = sys.stdout, sys.stderr
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(interval)
        CON.env = dict(os.environ)
        self.state = state()
        self.modules = set(sys.modules)
        self.threads = [threading.Thread(target=self.run, args=(k, i), daemon=True, name=f"background {k}") for i, k in enumerate(kinds)]
        for t in self.threads: t.start()
        self.delays = 0
        if delay:
            self.inject(*delay)
        else:
            self.tool = False
    def inject(self, p, most, limit):
        """Sleeps (and with that releases the interpreter) at random Python function starts and returns."""
        rnd = random.Random(self.seed)
        self.tool = True
        mon = sys.monitoring
        mon.use_tool_id(3, "delays")
        me = {t.name for t in self.threads}
        def hit(*a):
            if self.delays < limit and rnd.random() < p:
                self.delays += 1
                time.sleep(rnd.random() * most)
        for e in (mon.events.PY_START, mon.events.PY_RETURN):
            mon.register_callback(3, e, hit)
        mon.set_events(3, mon.events.PY_START | mon.events.PY_RETURN)
    def run(self, kind, i):
        try:
            rnd, k = random.Random(self.seed + i), 0
            while not self.stop:
                k += 1
                self.n += 1
                getattr(self, kind)(rnd, k, i)
                time.sleep(0)
        except BaseException as e:
            self.bad.append(f"a background thread ({kind}) failed: {type(e).__name__}: {e}")
    def watch(self, rnd, k, i):
        now = state()
        if now != self.state and len(self.bad) < 5:
            self.bad += [f"{n} was changed during a generation: {str(b)[:150]}" for n, a, b in zip(NAMES, self.state, now) if a != b]
        time.sleep(0.0005)
    def busy(self, rnd, k, i):
        x = {str(j): [j, {"k": j}] for j in range(rnd.randint(1, 60))}
        assert json.loads(json.dumps(x)) == x
        assert sum(j * j for j in range(300)) == 8955050
    def collect(self, rnd, k, i):
        gc.collect()
        time.sleep(0.002)
    def output(self, rnd, k, i):
        print(f"background {k}")
        sys.stderr.write("background\n")
        time.sleep(0.001)
    def imports(self, rnd, k, i):
        n = f"zzbg_{self.seed}_{i}_{k}"
        p = os.path.join(self.dir, n + ".py")
        if k <= 40:
            with open(p, "w") as f: f.write(f"import time\ntime.sleep(0)\nvalue = {k}\n")
            importlib.invalidate_caches()
            assert importlib.import_module(n).value == k
            del sys.modules[n]
        time.sleep(0.001)
    def introspect(self, rnd, k, i):
        import inspect
        assert str(inspect.signature(Background.inject)) == "(self, p, most, limit)"
        assert [m for m in inspect.getmembers(Sched) if m[0] == "step"][0][1] is Sched.step
    def raises(self, rnd, k, i):
        try:
            raise KeyError(k)
        except KeyError as e:
            assert e.args == (k,)
            time.sleep(0)
        assert sys.exc_info() == (None, None, None)
    def generate(self, rnd, k, i):
        """Another generation, started by a Python thread that holds the interpreter."""
        j = CON.jobs[(k + i) % len(CON.jobs)]
        if k > 4:
            time.sleep(0.002)
            return
        CON.results.append(((k + i) % len(CON.jobs), builtins.vdrv_generate(json.dumps(j))))
    def end(self):
        self.stop = True
        if self.tool:
            mon = sys.monitoring
            mon.set_events(3, 0)
            mon.register_callback(3, mon.events.PY_START, None)
            mon.register_callback(3, mon.events.PY_RETURN, None)
            mon.free_tool_id(3)
        for t in self.threads:
            t.join(20)
            if t.is_alive(): self.bad.append(f"{t.name} does not end")
        now = state()
        self.bad += [f"{n} was changed: {str(b)[:150]}" for n, a, b in zip(NAMES, self.state, now) if a != b]
        if (sys.stdout, sys.stderr) != self.streams:
            self.bad.append(f"the standard streams are not restored: {[type(s).__name__ for s in (sys.stdout, sys.stderr)]}")
            sys.stdout, sys.stderr = self.streams
        if sys.exc_info() != (None, None, None): self.bad.append("an exception is pending")
        sys.setswitchinterval(self.old)
        sched, CON.sched = CON.sched, None
        return json.dumps({"bad": self.bad[:6], "rounds": self.n, "delays": self.delays, "late": sched.late if sched else [], "python": CON.results})
CON.Background = Background
CON.jobs, CON.results = [], []
'''
KINDS = ["watch", "busy", "collect", "output", "imports", "introspect", "raises"]
SWITCHES = ["generate_preludes", "generate_imports", "generate_classes", "generate_type_vars", "generate_functions", "generate_properties", "generate_docs", "include_private", "generate_dependencies", "suppress_python_stdout",
            "suppress_python_stderr"]
SLOW = '''
import time, enum, typing
{imports}
time.sleep({d})
class Slow(type):
    def __dir__(cls):
        time.sleep({d2})
        return type.__dir__(cls)
class Base{n}(metaclass=Slow):
    """Base of {n}"""
    x{n}: int = 1
    def m{n}(self, a: int, b: 'str' = '') -> typing.List[int]: ...
class C{n}(Base{n}):
    def own{n}(self, o: Base{n}) -> Base{n}: ...
    @property
    def p{n}(self) -> int: ...
    class E{n}(enum.Enum):
        A = 1
def f{n}(a: C{n}, *args, k: typing.Dict[str, Base{n}], **kw) -> typing.Optional[C{n}]:
    """f of {n}"""
v{n}: float = 1.0
def __dir__():
    time.sleep({d2})
    return sorted(globals())
print('imported {n}')
time.sleep({d})
'''
GATED = '''
import builtins
builtins.__dict__.get('GATE', str)('{t}b')
def f{t}(a: int) -> str: ...
class C{t}:
    def m(self, o: 'list[int]') -> bool: ...
def g{t}(c: C{t}) -> C{t}: ...
def __dir__():
    builtins.__dict__.get('GATE', str)('{t}i')
    return sorted(globals())
builtins.__dict__.get('GATE', str)('{t}e')
{end}
'''


def norm(x):
    """What a generation returns (addresses aside)."""
    if x.get("status") == "ok":
        return ("ok", x.get("tokens"))
    return tuple(re.sub(r"0x[0-9a-f]+", "0x", str(x.get(k))) for k in ("status", "kind", "stage", "error"))


def key(sub):
    return json.dumps([sub["steps"], sub.get("cfg")], sort_keys=True)


def write(root, name, src):
    p = os.path.join(root, *name.split("."))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".py", "w") as f:
        f.write(src)


class Slow:
    """Packages that take a while (and release the interpreter) in imports and attribute listings; parents never import their children."""

    def __init__(self, r, root, tag):
        self.mods, self.tops = [], []
        n = 0
        for p in range(r.randint(1, 3)):
            top = f"{tag}p{p}"
            self.tops.append(top)
            tree = [f"{top}.__init__"] + [f"{top}.m{i}" for i in range(r.randint(0, 3))] + ([f"{top}.s.__init__", f"{top}.s.t"] if r.random() < 0.5 else [])
            for f in tree:
                m = f.removesuffix(".__init__")
                imports = ""
                if not f.endswith("__init__") and r.random() < 0.6:
                    # (only modules that exist already: no cycles)
                    ok = [(o, i) for i, o in enumerate(self.mods) if not m.startswith(o + ".")]
                    if ok:
                        o, i = r.choice(ok)
                        imports = f"from {o} import C{i}, f{i} as again{n}\n"
                write(root, f, SLOW.format(n=n, imports=imports, d=r.choice([0, 0.0005, 0.003, 0.01]), d2=r.choice([0, 0, 0.0005, 0.002])))
                self.mods.append(m)
                n += 1


class Gen:
    def __init__(self, rep, r, root):
        self.rep, self.r, self.root = rep, r, root
        self.jobs, self.infos, self.wanted = [], {}, {}

    def cfg(self):
        r = self.r
        if r.random() < 0.4:
            return None
        return {x: r.random() < (0.25 if x in ("include_private", "generate_dependencies") else 0.75) for x in r.sample(SWITCHES, r.randint(1, 5))}

    def want(self, sub, root):
        self.wanted.setdefault(key(sub), {"sys_path": [root], "steps": sub["steps"], "cfg": sub.get("cfg"), "tokens": True, "model": False})
        return sub

    def failing(self, i, t, root):
        """A generation that fails, on its own module."""
        r = self.r
        kind = r.choice(["missing", "raise", "exit", "syntax", "str", "strsyntax", "interrupt", "late", "empty", "nothing", "blank"])
        if kind == "missing":
            return [{"op": "name", "v": "zz_no_such_module"}]
        if kind == "empty":
            return [{"op": "name", "v": ""}]
        if kind == "nothing":
            return []
        if kind == "late":
            return [{"op": "name", "v": "json.decoder"}, {"op": "name", "v": "zz_no_such_module.sub"}]
        if kind == "blank":
            return [{"op": "names", "v": ["json.decoder", " "]}]
        n = f"bad{i}_{t}"
        src = {"raise": "import time\ntime.sleep(.001)\nraise ValueError('no')\n", "exit": "import sys, time\ntime.sleep(.001)\nsys.exit(2)\n", "syntax": "def f(:\n", "interrupt": "raise KeyboardInterrupt('x')\n",
               "str": "x = 1\nimport time\ntime.sleep(.001)\n1 / 0\n", "strsyntax": "class :\n"}[kind]
        if kind.startswith("str"):
            return [{"op": "str", "v": n, "src": src}]
        write(root, n, src)
        return [{"op": "name", "v": n}]

    def add(self, kind, root, subs, info, order=None, pre="", interval=None, delay=None, back=None, python=()):
        r = self.r
        jid = f"{kind}{len(self.jobs)}"
        for s in subs:
            self.want(s, root)
            s.update(tokens=True, model=False)
        python = [{**s, "tokens": True, "model": False} for s in python]
        for s in python:
            self.want(s, root)
        back = back if back is not None else ["watch"] + r.sample(KINDS, r.randint(0, 4)) + ["generate"] * (r.randint(1, 2) if python else 0)
        bg = os.path.join(root, "bg")
        os.makedirs(bg, exist_ok=True)
        interval = interval if interval is not None else r.choice([1e-6, 1e-6, 1e-5, 1e-4, 5e-3])
        pre = (f"import sys\nsys.path.insert(0, {bg!r})\n{MONITOR}\n{pre}\n" + (f"CON.sched = CON.Sched({order!r})\n" if order else "")
               + f"CON.jobs[:] = __import__('json').loads({json.dumps(python)!r})\nCON.results.clear()\nCON.bg = CON.Background({back!r}, {interval!r}, {delay!r}, {r.randrange(10**6)}, {bg!r})")
        self.jobs.append({"id": jid, "sys_path": [root], "pre": pre, "threads": subs, "post": "CON.bg.end()"})
        self.infos[jid] = {"kind": kind, "order": order, "interval": interval, "delay": delay, "background": back, "python": python, **info}


def wrap(g, r):
    """All kinds of workloads."""
    T = v.THOROUGH
    delay = lambda: r.choice([None, None, (0.02, 0.002, 300), (0.3, 0.0003, 1500), (0.002, 0.02, 40), (1.0, 0.0, 20000)])
    # 1. fresh random packages: every thread has its own, or all have the same one
    w = world.World("cc", 320 if T else 72, opts={"items": (2, 5)})
    names = list(w.pkgs)
    i = 0
    while i < len(names):
        k = r.choice([2, 3, 4, 6])
        mine = names[i:i + k]
        i += k
        subs = []
        shared = r.random() < 0.4
        trav = r.choice([None, None, False])
        for n in mine:
            for _ in range(r.randint(2, 4) if shared else 1):
                c = g.cfg()
                if trav is False:
                    c = {**(c or {}), "traverse_submodules": False}
                subs.append({"steps": [{"op": r.choice(["name", "name", "names"]), "v": n}], "cfg": c, "repeat": r.randint(1, 3)})
                if subs[-1]["steps"][0]["op"] == "names":
                    subs[-1]["steps"][0]["v"] = [n]
        if shared:
            # (in the same order everywhere: Python itself cannot resolve opposite orders of imports)
            subs = subs[:10]
        for t in range(r.choice([0, 0, 1, 3])):
            subs.append({"steps": g.failing(len(g.jobs), t, w.root), "cfg": g.cfg(), "repeat": r.randint(1, 3)})
        r.shuffle(subs)
        g.add("fresh", w.root, subs, {"packages": mine, "sources": {n: w.detail(n)["sources"] for n in mine}}, delay=delay())
    # 2. packages that are imported already: any requests, also from Python threads
    w2 = world.World("cw", 120 if T else 36, opts={"items": (2, 5)})
    names = list(w2.pkgs)
    for i in range(0, len(names), 3):
        mine = names[i:i + 3]
        mods = [m for n in mine for m in w2.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
        pre = "import importlib\n" + "".join(f"importlib.import_module({m!r})\n" for n in mine for m in w2.pkgs[n]["order"])

        def req():
            c = r.random()
            if c < 0.15:
                return g.failing(len(g.jobs), f"w{r.randrange(10**6)}", w2.root)
            pick = r.sample(mods, min(len(mods), r.randint(1, 3)))
            if c < 0.3:
                return [{"op": "modules", "v": pick}]
            if c < 0.4:
                return [{"op": "module", "v": m} for m in pick] + [{"op": "clone"}]
            if c < 0.5:
                return [{"op": "str", "v": f"emb{len(g.jobs)}_{r.randrange(10**6)}", "src": f"import time\ntime.sleep(0.001)\ndef f(a: int) -> str: ...\nclass C{r.randint(1, 9)}:\n    def m(self): ...\n"}]
            return [{"op": "name", "v": m} for m in pick]

        for _ in range(3 if T else 2):
            subs = []
            for t in range(r.choice([2, 4, 8, 12])):
                s = {"steps": req(), "cfg": {**(g.cfg() or {}), **({"traverse_submodules": False} if r.random() < 0.2 else {})}, "repeat": r.randint(1, 4)}
                subs.append(s)
                if r.random() < 0.4 and "bad" not in repr(s["steps"]):
                    # (Python may take a half-imported module that fails in another thread for a whole one)
                    subs.append({**s, "repeat": 2})
            python = [p for p in ({"steps": req(), "cfg": g.cfg()} for _ in range(3)) if "bad" not in repr(p)] if r.random() < 0.6 else ()
            g.add("warm", w2.root, subs, {"packages": mine, "sources": {n: w2.detail(n)["sources"] for n in mine}}, pre=pre, delay=delay(), python=python)
    # 3. slow imports
    root = os.path.join(v.workdir(), "py-slow")
    os.makedirs(root)
    for i in range(60 if T else 16):
        s = Slow(r, root, f"sl{i}")
        subs = []
        for t in range(r.choice([2, 3, 5, 8])):
            pick = r.sample(s.mods, min(len(s.mods), r.randint(1, 3))) if r.random() < 0.6 else [r.choice(s.tops)]
            steps = r.choice([[{"op": "names", "v": pick}], [{"op": "name", "v": m} for m in pick]])
            subs.append({"steps": steps, "cfg": g.cfg(), "repeat": r.randint(1, 2)})
        for t in range(r.choice([0, 1, 2])):
            subs.append({"steps": g.failing(len(g.jobs), t, root), "cfg": g.cfg(), "repeat": r.randint(1, 4)})
        python = [{"steps": [{"op": "name", "v": r.choice(s.tops)}], "cfg": g.cfg()}] if r.random() < 0.4 else ()
        g.add("slow", root, subs, {"modules": s.mods}, delay=delay(), python=python)
    # 4. the standard library
    std = ["json", "html", "csv", "string", "textwrap", "queue", "colorsys", "xml.dom", "email.mime", "urllib", "http.cookies", "wsgiref", "fractions", "statistics", "uuid", "calendar", "copy", "shelve", "tomllib", "zipapp"]
    for i in range(8 if T else 2):
        subs = [{"steps": [{"op": "name", "v": n}], "cfg": None, "repeat": 1} for n in r.sample(std, 6)]
        subs += [{**s} for s in subs[:3]]
        g.add("stdlib", root, subs, {}, pre="import importlib\n" + "".join(f"importlib.import_module({n!r})\n" for n in std), delay=None)
    # 5. forced orders of the begin and end of imports and of the listing of attributes
    root = os.path.join(v.workdir(), "py-gated")
    os.makedirs(root)
    pts = ["b", "e", "i"]
    two = [list(o) for o in interleavings([["0b", "0e", "0i"], ["1b", "1e", "1i"]])]
    orders = two + [random_order(r, [[f"{t}{p}" for p in pts] for t in range(3)]) for _ in range(200 if T else 20)]
    for i, order in enumerate(orders):
        k = 1 + max(int(o[0]) for o in order)
        ends = [r.choice(["", "", "", "raise ValueError('no')"]) for _ in range(k)]
        subs = []
        if len(set(o[1] for o in order)) and r.random() < 0.3:
            # several threads want all the modules, in the same order
            subs.append({"steps": [{"op": "names", "v": [f"gt{i}_{t}" for t in range(k) if not ends[t]] or ["json.scanner"]}], "cfg": None, "repeat": 1})
        for t in range(k):
            write(root, f"gt{i}_{t}", GATED.format(t=t, end=ends[t]))
        rest = [{"steps": [{"op": "name", "v": f"gt{i}_{t}"}], "cfg": g.cfg(), "repeat": 2} for t in range(k)]
        o2 = [o for o in order if not (ends[int(o[0])] and o[1] == "i")]
        g.add("gated", root, rest if not subs or any(ends) else rest + subs, {"ends": ends}, order=o2, interval=5e-3, back=["watch"] if i % 3 else [])


def interleavings(seqs):
    if not any(seqs):
        yield ()
        return
    for i, s in enumerate(seqs):
        if s:
            for rest in interleavings(seqs[:i] + [s[1:]] + seqs[i + 1:]):
                yield (s[0], *rest)


def random_order(r, seqs):
    out = []
    while any(seqs):
        s = r.choice([s for s in seqs if s])
        out.append(s.pop(0))
    return out


def check(rep):
    rep.rule = (
        "every result of a generation that ran concurrently with others is compared token by token with the result of the same request on its own (in another process); a case is a distinct set of requests with its schedule"
        " (own and shared fresh packages, packages imported already, slow imports and attribute listings, forced orders of import steps), while background threads run Python code and watch the interpreter's state"
    )
    v.build_drv()
    r = v.rng("c19")
    g = Gen(rep, r, None)
    wrap(g, r)
    alone = v.run_drv([{"id": k, "pre": "import builtins\nbuiltins.__dict__.pop('GATE', None)", **j} for k, j in g.wanted.items()])
    for k, x in alone.items():
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:1500])
    res = v.run_drv(g.jobs, timeout=90, shards=4)
    orders, pairs = set(), 0
    for jid, info in g.infos.items():
        job = next(j for j in g.jobs if j["id"] == jid)
        x = res[jid]
        detail = {"threads": job["threads"], **info}
        requests = [[s.get("v", s["op"]) for s in t["steps"]] for t in job["threads"]]
        label = f"{jid} ({len(requests)} threads{', order ' + ' '.join(info['order']) if info['order'] else ''})"
        rep.case((jid, tuple(info["order"] or ())))
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(f"{label}: {str(x)[:1500]}")
        rep.count("sets of concurrent generations")
        if x["status"] != "ok":
            rep.violation(f"{label}: the generations do not terminate: {x['status']}: {str(x.get('error') or x)[:300]}; requests {requests}", detail)
            continue
        p = x["post"]
        if not isinstance(p, dict) or "bad" not in p:
            rep.violation(f"{label}: Python cannot be used any more: {str(p)[:300]}", detail)
            continue
        spans = []
        for t, (sub, outs) in enumerate(zip(job["threads"], x["threads"])):
            want = norm(alone[key(sub)])
            for n, o in enumerate(outs):
                rep.count("concurrent results compared")
                rep.count("failing generations among them", want[0] != "ok")
                spans.append(o["t"])
                compare(rep, label, f"thread {t}, generation {n}, {requests[t]}", want, norm(o), detail)
        for n, text in p["python"]:
            o = json.loads(text)
            rep.count("concurrent results compared")
            rep.count("generations started by Python threads")
            compare(rep, label, f"a Python thread, {info['python'][n]['steps']}", norm(alone[key(info["python"][n])]), norm(o), detail)
        over = sum(a[0] < b[1] and b[0] < a[1] for a, b in itertools.combinations(spans, 2))
        pairs += over
        orders.add((jid, tuple(i for _, i in sorted((s[1], i) for i, s in enumerate(spans)))))
        rep.count("rounds of background threads", p["rounds"])
        rep.count("injected delays", p["delays"])
        rep.count("forced orders", bool(info["order"]))
        rep.count("forced orders that were not followed exactly", bool(p["late"]))
        for y in p["bad"][:3]:
            rep.violation(f"{label}: {y}; requests {requests}", detail)
        rep.sample(info["kind"], {"requests": requests, "overlapping pairs": over, "background": info["background"], "rounds": p["rounds"], "delays": p["delays"], "switch interval": info["interval"]}, 2)
    rep.count("overlapping pairs of generations", pairs)
    rep.count("distinct orders of completion", len(orders))
    rep.count("requests on their own", len(alone))
    cold_starts(rep)


def cold_starts(rep):
    """Several threads generate before anything has started Python; the thread that starts it may end before the others."""
    r = v.rng("c19-cold")
    root = os.path.join(v.workdir(), "py-cold")
    os.makedirs(root)
    jobs = []
    for i in range(80 if v.THOROUGH else 24):
        s = Slow(r, root, f"cs{i}")
        subs = []
        for t in range(r.choice([2, 3, 5, 8])):
            k = r.random()
            if k < 0.3:
                steps = [{"op": "str", "v": f"cse{i}_{t}", "src": f"import json\nimport time\ntime.sleep({r.choice([0, 0.002])})\nclass C{t}:\n    def m(self, a: int) -> str: ...\n"}]
            elif k < 0.4:
                steps = r.choice([[], [{"op": "name", "v": "zz_no_such_module"}], [{"op": "str", "v": f"csf{i}_{t}", "src": "1 / 0\n"}]])
            else:
                steps = [{"op": r.choice(["name", "name", "names"]), "v": r.choice(s.tops)}]
                if steps[0]["op"] == "names":
                    steps[0]["v"] = [steps[0]["v"]]
            subs.append({"steps": steps, "cfg": None, "repeat": r.randint(1, 3)})
        jobs.append({"id": f"cold start {i} of {len(subs)} threads", "threads": subs})
    cold.watch(rep, jobs, root)


def compare(rep, label, what, want, got, detail):
    if want == got:
        return
    if want[0] == got[0] == "ok":
        k = next((i for i, (p, q) in enumerate(zip(want[1], got[1])) if p != q), min(len(want[1]), len(got[1])))
        rep.violation(f"{label}: {what}: another result than on its own: ...{got[1][max(0, k - 60):k + 80]!r} instead of ...{want[1][max(0, k - 60):k + 80]!r}", detail)
    else:
        rep.violation(f"{label}: {what}: {str(got)[:300]} instead of {str(want)[:300]}", detail)


v.main("C19", check)
