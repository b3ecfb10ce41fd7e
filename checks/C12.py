import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vcommon as v

MARK = "MaRk"

MONITOR = r'''
import builtins, io, logging, sys, threading, time
class Recorder:
    """A stream with the bare minimum of methods that records what it gets."""
    def __init__(self): self.log = []
    def write(self, x): self.log.append(str(x)); return len(x)
    def flush(self): pass
class Evil(Recorder):
    __hash__ = None
    def __eq__(self, other): raise RuntimeError("compared")
class Text(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf-8", errors="backslashreplace", write_through=True)
    @property
    def log(self): return [self.buffer.getvalue().decode("utf-8", "replace")]
class Str(io.StringIO):
    @property
    def log(self): return [self.getvalue()]
KINDS = {"recorder": Recorder, "evil": Evil, "text": Text, "string": Str, "none": lambda: None}
class M: pass
builtins.MON = MON = M()
def install(out, err):
    MON.out, MON.err = KINDS[out](), KINDS[err]()
    MON.saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = MON.out, MON.err
    MON.seen = []
    logging.root.handlers[:] = []
def see(what):
    MON.seen.append((what, sys.stdout is MON.out, sys.stderr is MON.err))
MON.see = see
def verdict():
    import json
    r = {"out_same": sys.stdout is MON.out, "err_same": sys.stderr is MON.err, "now": [type(sys.stdout).__name__, type(sys.stderr).__name__], "seen": MON.seen,
         "out": "".join(MON.out.log) if MON.out is not None else None, "err": "".join(MON.err.log) if MON.err is not None else None}
    sys.stdout, sys.stderr = MON.saved
    return json.dumps(r)
MON.verdict = verdict

class Sched:
    """Forces a total order on the steps of several threads and records the streams at every step."""
    def __init__(self, order): self.order, self.pos, self.cond, self.late, self.obs = order, 0, threading.Condition(), [], []
    def step(self, tok):
        with self.cond:
            end = time.monotonic() + 10
            while tok not in self.order[:self.pos + 1]:
                if not self.cond.wait(max(0.0, end - time.monotonic())) and time.monotonic() >= end:
                    self.late.append(tok); break
            self.obs.append((tok, sys.stdout is MON.out, sys.stderr is MON.err))
            if self.pos < len(self.order) and self.order[self.pos] == tok:
                self.pos += 1
            self.cond.notify_all()
MON.Sched = Sched
'''

# what a module may do with a stream `X` while it is imported
WAYS = {
    "print": "print('{m}', file=X)",
    "write": "n = X.write('{m}')\nassert n in (None, {n})",
    "lines": "X.writelines(['{m}', '\\n'])",
    "flush": "print('{m}', file=X, flush=True)\nX.flush()",
    "buffer": "(X.buffer.write if hasattr(X, 'buffer') else lambda b: X.write(b.decode()))(b'{m}')",
    "unusual": "X.write('{m} \\u0000 \\udcff \\U0001f600 é\\r\\n')",
    "tty": "X.write('{m}') if not getattr(X, 'isatty', lambda: False)() else None",
    "large": "X.write('{m}' + 'x' * 100000)",
    "keep": "KEEP = X\nX.write('{m}')",
    "threaded": "import threading\nt = threading.Thread(target=lambda: X.write('{m}'))\nt.start()\nt.join()",
    "exit handler": "import contextlib, io\nwith contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):\n    print('hidden')\nX.write('{m}')",
}
REAL_ONLY = {"lines", "buffer", "unusual"}   # need a real text stream if it is not suppressed
ERR_WAYS = {
    "warning": "import warnings\nwith warnings.catch_warnings():\n    warnings.simplefilter('always')\n    warnings.warn('{m}')",
    "logging": "import logging\nlogging.getLogger('{m}').warning('{m}')",
    "basicConfig": "import logging\nlogging.basicConfig()\nlogging.getLogger('lg').error('{m}')",
    "traceback": "import traceback\ntry:\n    raise ValueError('{m}')\nexcept ValueError:\n    traceback.print_exc()",
}
ABUSE = {
    "": "",
    "replace": "import io\nsys.stdout = io.StringIO()\nsys.stderr = io.StringIO()",
    "wrap": "import codecs\nsys.stdout = codecs.getwriter('utf-8')(sys.stdout.buffer if hasattr(sys.stdout, 'buffer') else __import__('io').BytesIO())",
    "close": "sys.stdout.close() if type(sys.stdout).__module__ == 'io' or type(sys.stdout).__module__ == '_io' else None",
    "none": "sys.stdout = None\nsys.stderr = None",
}
FAIL = {
    "": "", "error": "raise ValueError('no')", "exit": "sys.exit(3)", "syntax": "import %s.broken_syntax", "interrupt": "raise KeyboardInterrupt", "base": "class B(BaseException): pass\nraise B('x')",
}
TAIL = "\ndef after(a: int) -> int: ...\nclass After:\n    def m(self): ...\n"


class Case:
    def __init__(self, r, i, root):
        self.r, self.name, self.root = r, f"so{i}", root
        self.marks = {"out": [], "err": []}    # markers that appear if the stream is not suppressed
        self.maybe = {"out": [], "err": []}
        self.k = 0

    def mark(self, stream, sure=True):
        self.k += 1
        m = f"{MARK}{self.name}x{self.k}z"
        (self.marks if sure else self.maybe)[stream].append(m)
        return m

    def noise(self, n, real, sure=True):
        out = ["import sys", "MON.see(__name__)"]
        for _ in range(n):
            s = self.r.choice(["out", "err"])
            x = f"sys.std{s}"
            ways = {**WAYS, **(ERR_WAYS if s == "err" else {})}
            w = self.r.choice([k for k in ways if (real[s] or k not in REAL_ONLY) and not (self.abuse and k == "unusual")])
            m = self.mark(s, sure)
            code = ways[w].replace("{m}", m).replace("{n}", str(len(m)))
            out.append(code.replace("X", x))
        return "\n".join(out) + "\n"


def write(root, files):
    for f, s in files.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(s)


DYNAMIC = """

def _report(how):
    import sys
    MON.see(__name__ + ': ' + how)
    print('{m}', file=sys.stdout)
    print('{m}', file=sys.stderr)
def __dir__():
    _report('__dir__')
    return sorted({{*globals(), 'lazy'}})
def __getattr__(n):
    _report('__getattr__ of ' + n)
    if n != 'lazy':
        raise AttributeError(n)
    def lazy(a, b): ...
    lazy.__qualname__ = 'lazy'
    return lazy
class Noisy:
    def __getattribute__(self, n):
        _report('attribute of an object')
        return object.__getattribute__(self, n)
noisy = Noisy()
class Meta(type):
    def __getattribute__(self, n):
        _report('attribute of a class')
        return type.__getattribute__(self, n)
    def __dir__(self):
        _report('dir of a class')
        return type.__dir__(self)
class Special(metaclass=Meta):
    @property
    def p(self): ...
"""


def dynamic(c, r, p=1.0):
    """Code that writes while the module is analysed."""
    return DYNAMIC.format(m=f"{MARK}{c.name}dyn") if r.random() < p else ""


def single(r, i, root):
    """One generation of a noisy package: (job, info)."""
    c = Case(r, i, root)
    n = c.name
    cfg = r.choice([None, None, {"suppress_python_stdout": True, "suppress_python_stderr": False}, {"suppress_python_stdout": False, "suppress_python_stderr": True},
                    {"suppress_python_stdout": False, "suppress_python_stderr": False}])
    sup = {"out": (cfg or {}).get("suppress_python_stdout", True), "err": (cfg or {}).get("suppress_python_stderr", True)}
    kinds = {s: r.choice(["recorder", "evil", "text", "string", "text", "string"] + (["none"] if sup[s] else [])) for s in ("out", "err")}
    real = {s: sup[s] or kinds[s] == "text" for s in kinds}
    form = r.choice(["name", "name", "names", "module", "str", "deps", "sub", "substr", "build"])
    fail = r.choice([k for k in FAIL if k != "syntax"]) if r.random() < 0.25 and form in ("name", "names", "str", "sub", "build") else ""
    abuse = r.choice(list(ABUSE)) if r.random() < 0.3 else ""
    sure = not abuse or abuse == "none" and False
    if abuse and (not all(sup.values()) or form == "deps"):
        abuse, sure = "", True
    c.abuse = abuse
    body = c.noise(r.randint(1, 4), real, sure) + (ABUSE[abuse] + "\n" if abuse else "")
    init = f'"""doc of {n}"""\n' + body + (FAIL[fail] + "\n" if fail else "") + TAIL
    if abuse != "none":
        # code that runs while the attributes are looked up
        init += dynamic(c, r, 0.4)
    if form == "deps":
        cfg = {**(cfg or {}), "generate_dependencies": True}
        dep = {f"{n}dep/__init__.py": c.noise(1, real, sure) + TAIL + dynamic(c, r), f"{n}late.py": c.noise(1, real, False) + TAIL + dynamic(c, r, 0.5),
               f"{n}dep/below.py": c.noise(1, real, False) + TAIL + dynamic(c, r, 0.5)}
        write(root, dep)
        init += f"from {n}dep import after as dep_after, lazy as dep_lazy\ndef late(): ...\nlate.__module__ = '{n}late'\n"
    subs = ["a", "b"]
    files = {f"{n}/__init__.py": init}
    for s in subs:
        broken = FAIL[r.choice(["error", "exit"])] if r.random() < 0.2 and s == "b" else ""
        # submodules find the stream that is installed at that time
        files[f"{n}/{s}.py"] = (c.noise(r.randint(1, 2), real, sure) if abuse not in ("close", "none") else "") + broken + TAIL + (dynamic(c, r, 0.3) if not abuse else "")
    pre = f"MON.install({kinds['out']!r}, {kinds['err']!r})"
    job = {"sys_path": [root], "cfg": cfg, "post": "MON.verdict()"}
    want = n
    preimported = None
    if form == "str":
        src = files.pop(f"{n}/__init__.py")
        files = {}
        job["steps"] = [{"op": "str", "v": n, "src": src}]
    elif form == "substr":
        # a module given as source below a package that still has to be imported
        src = c.noise(1, real, True) + TAIL
        job["steps"] = [{"op": "str", "v": f"{n}.given", "src": src}]
    elif form == "module":
        # the import itself happens before: only the submodules are imported by the generation
        preimported = n
        pre = f"MON.install('text', 'text')\nimport {n}\nMON.verdict()\n" + pre
        job["steps"] = [{"op": "module", "v": n}]
    elif form == "names":
        job["steps"] = [{"op": "names", "v": ["json", n] if r.random() < 0.5 else [n, "json"]}]
    elif form == "sub":
        job["steps"] = [{"op": "name", "v": f"{n}.a"}]
    else:
        job["steps"] = [{"op": "name", "v": n}]
    if form == "build":
        job["build"] = os.path.join(root, f"{n}.rs")
    if abuse and form == "module":
        abuse, files[f"{n}/__init__.py"] = "", "X = 1\n" + TAIL
    write(root, files)
    job["id"] = n
    job["pre"] = pre
    if preimported:
        # what the package itself writes goes elsewhere
        init_marks = [m for s in ("out", "err") for m in c.marks[s] if m in files[f"{n}/__init__.py"]]
        for s in ("out", "err"):
            c.marks[s] = [m for m in c.marks[s] if m not in init_marks]
    allsrc = "\n".join(files.values()) + (job["steps"][0].get("src") or "")
    info = {"case": c, "sup": sup, "kinds": kinds, "form": form, "fail": fail, "abuse": abuse, "cfg": cfg, "sources": {**files, "source": job["steps"][0].get("src")}}
    if form == "str":
        c.marks = {s: [m for m in ms if m in allsrc] for s, ms in c.marks.items()}
    if fail or form == "sub":
        pass
    return job, info


def judge_single(rep, job, info, x):
    c, n = info["case"], job["id"]
    d = {"package": n, "job": {k: job[k] for k in job if k != "id"}, **{k: info[k] for k in ("form", "fail", "abuse", "cfg", "kinds", "sources")}, "result": {k: y for k, y in x.items() if k != "model"}}
    if x["status"] in ("pre_error", "drv_panic"):
        raise v.Infra(str(x)[:2000])
    p = x.get("post") or {}
    what = f"{n} ({info['form']}, {info['cfg']}, fails: {info['fail'] or 'no'}, streams {info['kinds']})"
    rep.case((info["form"], info["fail"], info["abuse"], repr(info["cfg"]), repr(info["kinds"]), n))
    rep.count("generations: " + info["form"])
    if "out_same" not in p:
        rep.violation(f"{what}: the streams cannot be observed: {str(x)[:600]}", d)
        return
    for s in ("out", "err"):
        rep.count("stream identities checked")
        if not p[f"{s}_same"]:
            rep.violation(f"{what}: sys.std{s} is not restored: {p['now']}", d)
        log = p[s] or ""
        # while it ran
        for mod, o, e in p["seen"]:
            rep.count("observations by imported modules")
            same = o if s == "out" else e
            if same and info["sup"][s] or not same and not info["sup"][s] and not info["abuse"]:
                rep.violation(f"{what}: sys.std{s} was {'not ' if same else ''}replaced while {mod} was imported", d)
        if info["sup"][s]:
            rep.count("silent streams")
            if MARK in log:
                rep.violation(f"{what}: output on sys.std{s} was not discarded: {log[:200]!r}", d)
        else:
            rep.count("open streams")
            executed = {m for m, _, _ in p["seen"]}
            for m in c.marks[s]:
                src = next((f for f, t in info["sources"].items() if t and m in t), None)
                if src is None:
                    continue
                mod = n if src == "source" and info["form"] == "str" else f"{n}.given" if src == "source" else src[:-3].replace("/", ".").replace(".__init__", "")
                if mod not in executed:
                    continue
                rep.count("markers expected")
                if m not in log:
                    rep.violation(f"{what}: output of {mod} on sys.std{s} was lost", d)
    if info["fail"]:
        if x["status"] != "err":
            rep.violation(f"{what}: a module that fails to import gives {x['status']}: {str(x)[:300]}", d)
        return
    if x["status"] != "ok":
        rep.violation(f"{what}: no bindings: {str(x)[:600]}", d)
        return
    names = functions(x["model"])
    mods = {"name": [n, f"{n}.a"], "names": [n, f"{n}.a", "json"], "module": [n, f"{n}.a"], "str": [n], "deps": [n, f"{n}.a", f"{n}dep", f"{n}late"], "sub": [f"{n}.a"],
            "substr": [f"{n}.given"], "build": [n, f"{n}.a"]}[info["form"]]
    for m in mods:
        want = f"{m}::after".replace(".", "::") if m != "json" else "json::dumps"
        rep.count("items looked up")
        if want not in names and not (m.endswith("late")):
            rep.violation(f"{what}: {want} is missing", d)


def functions(items, path=""):
    out = set()
    for it in items:
        if it["kind"] in ("fn", "mod"):
            p = f"{path}::{it['name']}" if path else it["name"]
            out.add(p)
            if it["kind"] == "mod":
                out |= functions(it["items"], p)
    return out


def scheduled(r, i, root):
    """Several threads whose imports overlap in a forced order."""
    k = r.choice([2, 2, 3, 4])
    left = {t: ["s", "b", "e", "d"] for t in range(k)}
    order = []
    while any(left.values()):
        t = r.choice([t for t in left if left[t]])
        order.append(f"{left[t].pop(0)}{t}")
    mode = r.choice(["all", "all", "all", "out", "err", "none"])
    cfg = {"suppress_python_stdout": mode in ("all", "out"), "suppress_python_stderr": mode in ("all", "err")} if mode != "all" else None
    fails = [r.random() < 0.25 for _ in range(k)]
    subs, files, marks = [], {}, []
    for t in range(k):
        n = f"sc{i}_{t}"
        nested = ""
        if r.random() < 0.2:
            # generating bindings while being imported by a generation
            inner = {"steps": [{"op": "name", "v": r.choice(["json", "no_such_module_zz"])}], "model": False, "cfg": cfg}
            nested = f"import builtins\nbuiltins.vdrv_generate({json.dumps(json.dumps(inner))})\nprint('{MARK}{n}nested')\nprint('{MARK}{n}nested', file=sys.stderr)\n"
        fail = "raise ValueError('no')\n" if fails[t] else ""
        files[f"{n}.py"] = (f"import sys\nMON.sched.step('b{t}')\nprint('{MARK}{n}1')\nprint('{MARK}{n}1', file=sys.stderr)\n{nested}MON.sched.step('e{t}')\n"
                            f"print('{MARK}{n}2')\nprint('{MARK}{n}2', file=sys.stderr)\n{fail}{TAIL}")
        subs.append({"pre": f"MON.sched.step('s{t}')", "post": f"str(MON.sched.step('d{t}'))", "steps": [{"op": "name", "v": n}], "cfg": cfg})
    write(root, files)
    job = {"id": f"sched{i}", "sys_path": [root], "pre": f"MON.install('recorder', 'recorder')\nMON.sched = MON.Sched({order!r})", "threads": subs,
           "post": "__import__('json').dumps({'late': MON.sched.late, 'obs': MON.sched.obs, 'v': __import__('json').loads(MON.verdict())})"}
    return job, {"order": order, "mode": mode, "fails": fails, "sources": files}


def judge_scheduled(rep, job, info, x):
    d = {"job": job, **info, "result": x}
    what = f"{job['id']} ({' '.join(info['order'])}, suppressed: {info['mode']}, failing: {info['fails']})"
    if x["status"] in ("pre_error", "drv_panic"):
        raise v.Infra(str(x)[:2000])
    rep.case((tuple(info["order"]), info["mode"], tuple(info["fails"])))
    rep.count("forced schedules")
    if x["status"] != "ok" or not isinstance(x.get("post"), dict) or "v" not in x["post"]:
        rep.violation(f"{what}: {str(x)[:500]}", d)
        return
    p = x["post"]
    if p["late"]:
        # not the forced order (e.g. slow machine): what follows is still valid except for the exact order
        rep.count("schedules that were not followed exactly")
    active, n = set(), len(info["fails"])
    sup = {"out": info["mode"] in ("all", "out"), "err": info["mode"] in ("all", "err")}
    started = set()
    for tok, o, e in p["obs"]:
        rep.count("observations in forced schedules")
        t = tok[1:]
        for s, same in (("out", o), ("err", e)):
            if tok[0] in "be" and same and sup[s]:
                rep.violation(f"{what}: at {tok} sys.std{s} is not suppressed", d)
            if not sup[s] and not same:
                rep.violation(f"{what}: at {tok} sys.std{s} was replaced although its suppression is disabled", d)
            if tok[0] in "sd" and not same and not (started - {t} if tok[0] == "d" else started):
                rep.violation(f"{what}: at {tok} no generation is running but sys.std{s} is still replaced", d)
        if tok[0] == "s":
            started.add(t)
        elif tok[0] == "d":
            started.discard(t)
    for s in ("out", "err"):
        if not p["v"][f"{s}_same"]:
            rep.violation(f"{what}: sys.std{s} is not restored: {p['v']['now']}", d)
        log = p["v"][s]
        if sup[s] and MARK in log:
            rep.violation(f"{what}: output on sys.std{s} was not discarded: {log[:200]!r}", d)
        if not sup[s]:
            for t in range(n):
                for j in "12":
                    m = f"{MARK}sc{job['id'][5:]}_{t}{j}"
                    if m not in log:
                        rep.violation(f"{what}: output {m} on sys.std{s} was lost", d)
    for t, y in enumerate(x["threads"]):
        y = y[0]
        want = "err" if info["fails"][t] else "ok"
        if y["status"] != want:
            rep.violation(f"{what}: thread {t} gives {str(y)[:300]} instead of {want}", d)
        elif want == "ok" and f"sc{job['id'][5:]}_{t}::after" not in functions(y["model"]):
            rep.violation(f"{what}: bindings of thread {t} are incomplete", d)


def stress(r, i, root):
    """Unforced overlaps of short and long, failing and nested generations."""
    k = r.choice([4, 6, 8])
    files, subs = {}, []
    for t in range(k):
        n = f"sx{i}_{t}"
        files[f"{n}.py"] = f"import sys, time\nprint('{MARK}')\ntime.sleep({r.choice([0, 0, .001, .01, .03])})\nprint('{MARK}', file=sys.stderr)\n{'raise OSError(1)' if r.random() < .3 else ''}\n{TAIL}"
        subs.append({"repeat": r.randint(1, 6), "steps": [{"op": "name", "v": n}, {"op": "name", "v": r.choice(["json", n])}], "model": False,
                     "cfg": r.choice([None, None, {"suppress_python_stdout": False}, {"suppress_python_stderr": False}])})
    write(root, files)
    return {"id": f"stress{i}", "sys_path": [root], "pre": f"MON.install('recorder', 'text')\nsys.setswitchinterval({r.choice([1e-6, 1e-5, 5e-3])})", "threads": subs,
            "post": "(sys.setswitchinterval(5e-3), MON.verdict())[1]"}


def check(rep):
    rep.rule = (
        "noisy packages (writing in many ways at import, in failing imports and submodules, on attribute lookup, replacing or closing the streams) are generated under every"
        " suppression setting, request form and kind of original stream; further generations overlap in forced and random interleavings of threads or start within an import;"
        " monitors record the stream objects and everything that reaches them; a case is a distinct configuration of a generation or schedule"
    )
    v.build_drv()
    r = v.rng("c12")
    root = os.path.join(v.workdir(), "py")
    mul = 6 if v.THOROUGH else 1
    jobs, infos = [], {}
    for i in range(480 * mul):
        j, info = single(r, i, root)
        jobs.append(j)
        infos[j["id"]] = (judge_single, j, info)
    for i in range(200 * mul):
        j, info = scheduled(r, i, root)
        jobs.append(j)
        infos[j["id"]] = (judge_scheduled, j, info)
    st = [stress(r, i, root) for i in range(50 * mul)]
    jobs += st
    r.shuffle(jobs)
    groups, init = [], {"steps": [{"op": "name", "v": "json"}], "model": False, "pre": MONITOR + "\nMON.install = install\n"}
    for i in range(0, len(jobs), 12):
        groups.append([{**init, "id": f"init{i}"}] + jobs[i:i + 12])
    res = v.run_drv(groups)
    for jid, (judge, j, info) in infos.items():
        judge(rep, j, info, res[jid])
    for j in st:
        x = res[j["id"]]
        p = x.get("post") or {}
        if x["status"] in ("pre_error", "drv_panic"):
            raise v.Infra(str(x)[:2000])
        rep.case(j["id"])
        rep.count("stress runs")
        rep.count("generations in stress runs", sum(t["repeat"] for t in j["threads"]))
        if not isinstance(p, dict) or not p.get("out_same") or not p.get("err_same"):
            rep.violation(f"{j['id']}: after concurrent generations: {str(p or x)[:400]}", {"job": j, "result": x})
    rep.sample("schedules", [" ".join(info["order"]) for f, j, info in infos.values() if f is judge_scheduled][:8])
    rep.sample("generations", [{k: info[k] for k in ("form", "cfg", "fail", "abuse", "kinds")} for f, j, info in infos.values() if f is judge_single][:6])


v.main("C12", check)
