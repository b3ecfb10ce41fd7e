"""Runs inside of the interpreter that is embedded in a program made of generated bindings (see rustgen.py).

Every entry of the program is one generated function. The driver calls it through `_vcall`, while the recorder module
`vrec` records what really happens in Python, and compares the two.
"""
import copy
import importlib
import json
import os
import pickle
import random
import sys
import types


def main(vcall, conf_path):
    conf = json.load(open(conf_path))
    sys.path[:0] = [conf["lib"], conf["root"]]
    out = Run(vcall, conf)
    out.run()
    with open(conf["out"], "w") as f:
        json.dump({"viol": out.viol, "counts": out.counts, "samples": out.samples, "cases": out.cases}, f)


class CustomError(Exception):
    def __init__(self, *a, code=7):
        super().__init__(*a)
        self.code = code


def exceptions(r):
    e = r.choice([
        lambda: ValueError("plain"), lambda: CustomError("custom", code=3), lambda: KeyboardInterrupt(), lambda: StopIteration(5),
        lambda: KeyError("größe"), lambda: TypeError("called with wrong arguments"), lambda: AttributeError("no attribute"),
        lambda: ImportError("import", name="x"), lambda: SystemExit(3), lambda: OSError(2, "No such file"), lambda: Exception(),
        lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), lambda: RecursionError("deep"), lambda: MemoryError(),
        lambda: GeneratorExit(), lambda: NotImplementedError(), lambda: AssertionError("x"),
    ])()
    if r.random() < 0.3:
        e.__cause__ = ValueError("cause")
    if r.random() < 0.3:
        e.add_note("a note")
    return e


class Run:
    def __init__(self, vcall, conf):
        import oracle
        import values
        import vrec

        self.vcall, self.conf = vcall, conf
        self.o, self.values, self.vrec = oracle, values, vrec
        self.viol, self.counts, self.samples, self.cases = [], {}, [], []
        self.r = random.Random(f"{conf['seed']}/run")
        self.tmp = 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, e, what, **detail):
        self.viol.append({"gen": e["gen"], "what": f"{self.where(e)}: {what}", "detail": {k: self.values.show(x, 400) for k, x in detail.items()}})

    def where(self, e):
        return "::".join(e["mod"] + ([e["struct"]] if "struct" in e else []) + [e["name"]])

    # ------------------------------------------------------------ lookup
    def run(self):
        conf = self.conf
        with open(conf["pkgs"], "rb") as f:
            gens = pickle.load(f)  # [(pkg, requests, cfg)]
        embeds = [e for e in conf["entries"] if e["kind"] == "embed"]
        conf["entries"] = [e for e in conf["entries"] if e["kind"] != "embed"]
        for e in embeds:
            self.embed(e, gens[e["gen"]][0])
        roots = []
        for pkg, req, cfg in gens:
            roots.append((pkg, self.o.Oracle(pkg, req, cfg).tree()))
        todo = {}
        for e in conf["entries"]:
            pkg, tree = roots[e["gen"]]
            mod = tree.get(e["mod"][0])
            for x in e["mod"][1:]:
                mod = mod.mods.get(x) if mod else None
            if mod is None:
                continue
            if "struct" in e:
                st = mod.structs.get(e["struct"])
                fn = st and (st.assoc if e["kind"] == "assoc" else st.trait).get(e["name"])
                todo.setdefault(e["gen"], []).append((e, mod, st, fn))
            else:
                todo.setdefault(e["gen"], []).append((e, mod, None, mod.fns.get(e["name"])))
        for g, items in todo.items():
            self.pkg = roots[g][0]
            for x in items:
                e, mod, st, fn = x
                e["x"] = fn
                if fn is None:
                    # judged by the checks of the structure
                    self.count("entries without counterpart")
            items = [x for x in items if x[3] is not None]
            self.r.shuffle(items)
            wanted = [x for x in items if x[3].sem[0] in conf["sems"]]
            wanted = wanted[: conf.get("max_per_gen", 10**9)]
            if conf.get("first_import", True):
                self.first(wanted)
            for x in wanted:
                try:
                    getattr(self, "t_" + x[3].sem[0])(*x)
                except Glue as ex:
                    self.bad(x[0], f"a conforming value is not accepted: {ex}")
                except Exception as ex:
                    import traceback

                    self.bad(x[0], f"exercising it failed: {ex!r}", traceback=traceback.format_exc())
                self.count(f"entries: {x[3].sem[0]}")
                self.cases.append(f"{g}/{self.where(x[0])}")
        for e in embeds:
            n = gens[e["gen"]][0]["name"]
            if self.vrec.COUNT.get(n) != 1:
                self.bad(e, f"in the end the source code of {n} has been executed {self.vrec.COUNT.get(n)} times")

    def embed(self, e, pkg):
        """Makes a module importable that does not exist anywhere."""
        n = pkg["name"]
        if n in sys.modules:
            raise AssertionError("imported too early")
        kind, got = self.call(e)
        self.count("modules embedded")
        if kind != "ok":
            self.bad(e, f"embedding raised {got!r}")
        elif self.vrec.COUNT.get(n) != 1:
            self.bad(e, f"embedding executed the source code of {n} {self.vrec.COUNT.get(n)} times")
        elif n not in sys.modules or importlib.import_module(n) is not sys.modules[n] or sys.modules[n].__name__ != n:
            self.bad(e, f"the embedded module {n} is not importable under its name")

    def call(self, e, *args):
        try:
            return "ok", self.vcall(e["i"], args)
        except SystemError as ex:
            if str(ex).startswith("GLUE"):
                raise Glue(f"{ex} (arguments {self.values.show(args, 300)})")
            return "raise", ex
        except BaseException as ex:
            return "raise", ex

    def first(self, wanted):
        """The very first call has to import the package."""
        cand = [x for x in wanted if x[3].sem[0] == "fn" and x[3].sem[1]["flavor"] not in ("builtin", "async")
                and not any(p["ann"] and any(a[0] == "cls" for a in _walk(p["ann"]["ann"])) for p in x[3].sem[1]["params"])]
        if not cand:
            return
        if any(m == self.pkg["name"] or m.startswith(self.pkg["name"] + ".") for m in sys.modules):
            raise AssertionError("package is imported too early")
        self.t_fn(*self.r.choice(cand), rounds=1)
        self.count("calls that imported the package")

    def cls(self, ref):
        full, name = ref
        return getattr(importlib.import_module(full), name)

    def inst(self, ref):
        c = self.cls(ref)
        make = next((x.get("make") for x in self.pkg["mods"][ref[0]]["items"] if x["k"] == "cls" and x["n"] == ref[1]), None)
        if make:
            return eval(make, {"c": c})
        if getattr(c, "__abstractmethods__", None):
            c = type("Concrete", (c,), {x: (lambda self: None) for x in c.__abstractmethods__})
        return c.__new__(c)

    def value(self, ann):
        """Conforming value for an annotation record."""
        return self.values.gen(self.r, ann["ann"] if ann else None, self.inst)

    # ------------------------------------------------------------ calls
    def some(self, usual):
        """How many elements: mostly few, sometimes so many that no fixed capacity holds them."""
        return self.r.choice(usual) if self.r.random() < 0.85 else self.r.choice([7, 8, 9, 16, 17, 33, 65, 129, 300, 1025])

    def arguments(self, params):
        """[(param, value)] in order, and what Python is expected to receive."""
        args, want = [], {}
        for p in params:
            if p["kind"] == "va":
                v = tuple(self.values.anything(self.r) for _ in range(self.some([0, 1, 2, 5])))
                w = v
            elif p["kind"] == "vk":
                names = [x["n"] for x in params if x["kind"] in ("pk", "ko")]
                pool = ["k", "größe", "type", "not an identifier", "", "p_value", "fn", "args", "kwargs", "__internal__args", "py", "_"]
                pool += [x["n"] for x in params if x["kind"] in ("po", "va", "vk")] * 2
                pool = [x for x in pool if x not in names and x not in getattr(self, "recvname", ())]
                n = self.some([0, 1, 3])
                if n > 3:
                    pool = pool + [f"k{i}" for i in range(n)]
                v = {self.r.choice(pool): self.values.anything(self.r) for _ in range(n)}
                w = dict(v)
                if not v and self.r.random() < 0.5:
                    v = None
            else:
                v = w = self.value(p["ann"])
            args.append(v)
            want[p["n"]] = w
        return args, want

    def invoke(self, e, fn, params, ret, ids, recv=None, want_recv=None, rounds=None, noret=False, result=None, isasync=False, anyret=False):
        """Calls an entry several times with different arguments and outcomes. ids: the log entry that must appear."""
        rounds = rounds or self.conf.get("rounds", 4)
        for k in range(rounds):
            args, want = self.arguments(params)
            raising = k % 3 == 2
            if raising:
                plan = ("raise", exceptions(self.r))
            else:
                plan = ("return", self.values.gen(self.r, ret["ann"] if ret else None, self.inst) if not noret else None)
            log = self.vrec.LOG
            log.clear()
            self.vrec.PLAN.clear()
            self.vrec.PLAN[ids] = plan
            if isasync and raising:
                continue
            before = [(a, dict(a)) for p, a in zip(params, args) if p["kind"] == "vk" and a is not None]
            kind, got = self.call(e, *(([recv] if fn.recv else []) + args))
            self.vrec.PLAN.clear()
            if isasync and kind == "ok":
                if log:
                    self.bad(e, "coroutine function was run", log=log)
                self.vrec.PLAN[ids] = plan
                try:
                    got.send(None)
                    self.bad(e, "coroutine did not finish")
                except StopIteration as st:
                    got = st.value
                self.vrec.PLAN.clear()
            entries = list(log)
            log.clear()
            self.count("calls")
            d = dict(args=args, kind=kind, got=got, log=entries, plan=plan)
            if len(entries) != 1:
                self.bad(e, f"{len(entries)} Python calls happened instead of one" + (f" ({type(got).__name__}: {got})" if kind == "raise" else ""), **d)
                return False
            lid, largs, lrecv = entries[0]
            if lid != ids:
                self.bad(e, f"{lid} was called instead of {ids}", **d)
                return False
            if want_recv is not None and not want_recv(lrecv):
                self.bad(e, f"wrong receiver {self.values.show(lrecv)}", **d)
            if set(largs) != set(want):
                self.bad(e, "different parameters arrived", **d)
            for n in want:
                self.count("arguments compared")
                if n in largs and not self.values.same(want[n], largs[n]):
                    self.bad(e, f"parameter {n}: sent {self.values.show(want[n])}, but {self.values.show(largs[n])} arrived", **d)
            for p in params:
                if p["kind"] == "vk" and list(largs.get(p["n"], ())) != list(want[p["n"]]):
                    self.bad(e, f"the order of keyword arguments in {p['n']} changed", **d)
            for a, b in before:
                if list(a) != list(b) or any(a[x] is not b[x] for x in b):
                    self.bad(e, "the dictionary of keyword arguments of the caller was modified", before=b, **d)
            if raising:
                self.count("exceptions compared")
                if kind != "raise" or got is not plan[1]:
                    self.bad(e, f"raised {plan[1]!r}, but got {kind} {self.values.show(got)}", **d)
                elif (plan[1].__cause__ is not None) != isinstance(got.__cause__, ValueError):
                    self.bad(e, "the cause of the exception changed", **d)
                got.__traceback__ = None
            else:
                self.count("results compared")
                if kind != "ok":
                    self.bad(e, f"returned {self.values.show(plan[1])}, but the binding raised {got!r}", **d)
                elif result is not None:
                    x = result(got, largs, lrecv)
                    if x:
                        self.bad(e, x, **d)
                elif anyret and got is not plan[1] or not self.values.similar(plan[1], got):
                    self.bad(e, f"returned {self.values.show(plan[1])}, but the binding gave {self.values.show(got)}", **d)
            if len(self.samples) < 6 and k == 0:
                self.samples.append({"call": self.where(e), "args": self.values.show(args, 200), "outcome": f"{kind} {self.values.show(got, 80)}", "log": self.values.show(entries, 200)})
        return True

    def anyret(self, fn):
        return fn.ret[0] == self.o.ANY_O and not fn.ret[1]

    def t_fn(self, e, mod, st, fn, rounds=None):
        it = fn.sem[1]
        fl = it["flavor"]
        if fl == "builtin":
            return self.t_builtin(e)
        if fl == "rawdeco":
            params = [{"kind": "va", "n": "args", "ann": None}, {"kind": "vk", "n": "kwargs", "ann": None}]
            return self.rawcall(e, it)
        self.invoke(e, fn, it["params"], it["ret"], it["id"], want_recv=lambda x: x is None, rounds=rounds, isasync=fl == "async",
                    anyret=self.anyret(fn))
        if fl in ("def", "deco") and rounds is None:
            self.live(e, mod, fn, it)

    def live(self, e, mod, fn, it):
        """The binding calls what the module contains at the time of the call, like any Python caller."""
        pym = sys.modules[mod.full]
        name = self.pyname(pym, e["name"], it)
        if name is None:
            return
        orig = pym.__dict__[name]
        seen = []
        result = object()

        def fake(*a, **k):
            seen.append((a, k))
            return result if self.anyret(fn) else plan

        plan = self.values.gen(self.r, it["ret"]["ann"] if it["ret"] else None, self.inst)
        pym.__dict__[name] = fake
        try:
            args, want = self.arguments(it["params"])
            self.call(e, *args)
        finally:
            pym.__dict__[name] = orig
        self.count("calls of replaced functions")
        if len(seen) != 1:
            self.bad(e, f"the function that replaced {name} in its module was called {len(seen)} times")
        self.vrec.LOG.clear()

    def pyname(self, owner, rust, it):
        n = rust[2:] if rust.startswith("r#") else rust
        d = owner.__dict__
        return n if n in d and callable(d[n]) else None

    def rawcall(self, e, it):
        """A wrapper without a signature of its own: variadic arguments reach the wrapped function."""
        for k in range(3):
            args, kwargs, want = [], {}, {}
            for p in it["params"]:
                v = self.value(p["ann"]) if p["kind"] not in ("va", "vk") else None
                if p["kind"] == "po" or p["kind"] == "pk":
                    args.append(v)
                    want[p["n"]] = v
                elif p["kind"] == "ko":
                    kwargs[p["n"]] = v
                    want[p["n"]] = v
                elif p["kind"] == "va":
                    v = (1, "x")
                    args += v
                    want[p["n"]] = v
                else:
                    kwargs["extra_key"] = 5
                    want[p["n"]] = {"extra_key": 5}
            plan = ("return", self.values.Marker())
            self.vrec.LOG.clear()
            self.vrec.PLAN[it["id"]] = plan
            kind, got = self.call(e, tuple(args), kwargs or None)
            self.vrec.PLAN.clear()
            log = list(self.vrec.LOG)
            self.count("calls")
            if len(log) != 1 or log[0][0] != it["id"] or set(log[0][1]) != set(want) or not all(
                self.values.same(want[n], log[0][1][n]) for n in want
            ):
                self.bad(e, "wrapped function received something else", want=want, log=log, got=got)
            elif kind != "ok" or got is not plan[1]:
                self.bad(e, "wrong result", got=got)

    def t_builtin(self, e, *rest):
        import math

        kind, got = self.call(e, 6.25)
        if (kind, got) != ("ok", 2.5):
            self.bad(e, f"sqrt(6.25) gave {kind} {got!r}")
        kind, got = self.call(e, -1)
        if kind != "raise" or not isinstance(got, ValueError):
            self.bad(e, f"sqrt(-1) gave {kind} {got!r}")
        self.count("calls", 2)

    # ------------------------------------------------------------ classes
    def t_new(self, e, mod, st, fn):
        _, m, kind = fn.sem
        cls = self.cls(st.ref)
        if kind == "dinit":
            for _ in range(3):
                args, want = self.arguments(m["params"])
                k, got = self.call(e, *args)
                self.count("calls")
                if k != "ok" or type(got) is not cls:
                    self.bad(e, f"constructor gave {k} {self.values.show(got)} instead of a {cls}", args=args)
                    continue
                if set(got.__dict__) != set(want):
                    self.bad(e, "other attributes were set", args=args, got=got.__dict__)
                for n in want:
                    self.count("arguments compared")
                    if not self.values.same(want[n], got.__dict__.get(n)):
                        self.bad(e, f"field {n}: sent {self.values.show(want[n])}, but is {self.values.show(got.__dict__.get(n))}")
            return

        def result(got, largs, lrecv):
            if got is not lrecv:
                return f"the constructed object is not returned: {self.values.show(got)}"
            if type(got) is not cls:
                return f"an instance of {type(got)} is returned instead of {cls}"

        self.invoke(e, fn, m["params"], None, m["id"], want_recv=lambda x: type(x) is cls, noret=True, result=result)

    def recvs(self, st):
        """Receivers: an instance of the class, and one of a subclass."""
        cls = self.cls(st.ref)
        yield cls.__new__(cls)

    def t_inst(self, e, mod, st, fn, name=None):
        m = fn.sem[1]
        cls = self.cls(st.ref)
        obj = cls.__new__(cls)
        # (a `__call__` may also be a static or class method)
        want = {"static": None, "class": cls}.get(m.get("bound"), obj)
        ok = self.invoke(e, fn, m["params"], m["ret"], m["id"], recv=obj, want_recv=lambda x: x is want, anyret=self.anyret(fn))
        if not ok:
            return
        # dynamic dispatch: a subclass, and an attribute of the instance, take precedence
        name = m["n"]
        seen = []

        def fake(self_, *a, **k):
            seen.append(self_)
            return plan

        plan = self.values.gen(self.r, m["ret"]["ann"] if m["ret"] else None, self.inst)
        try:
            sub = type("Sub", (cls,), {name: fake})
        except TypeError:
            return
        o2 = sub.__new__(sub)
        args, want = self.arguments(m["params"])
        self.vrec.LOG.clear()
        kind, got = self.call(e, o2, *args)
        self.count("calls that dispatch to an override")
        if len(seen) != 1 or seen[0] is not o2 or self.vrec.LOG:
            self.bad(e, f"the override {name} of a subclass was called {len(seen)} times", log=self.vrec.LOG, got=got)
        elif kind != "ok" or not self.values.similar(plan, got):
            self.bad(e, f"the override returned {self.values.show(plan)}, but the binding gave {kind} {self.values.show(got)}")
        if name != "__call__" and hasattr(obj, "__dict__"):
            seen.clear()
            obj.__dict__[name] = lambda *a, **k: fake(obj, *a, **k)
            args, want = self.arguments(m["params"])
            self.vrec.LOG.clear()
            kind, got = self.call(e, obj, *args)
            self.count("calls that dispatch to an attribute of the instance")
            if len(seen) != 1 or self.vrec.LOG:
                self.bad(e, f"the attribute {name} of the instance was called {len(seen)} times", log=self.vrec.LOG, got=got)
            del obj.__dict__[name]

    def t_call(self, e, mod, st, fn):
        self.t_inst(e, mod, st, fn, name="__call__")

    def t_class(self, e, mod, st, fn):
        m = fn.sem[1]
        cls = self.cls(st.ref)
        self.invoke(e, fn, m["params"], m["ret"], m["id"], want_recv=lambda x: x is cls, anyret=self.anyret(fn))

    def t_static(self, e, mod, st, fn):
        m = fn.sem[1]
        self.invoke(e, fn, m["params"], m["ret"], m["id"], want_recv=lambda x: x is None, anyret=self.anyret(fn))

    def t_private(self, e, mod, st, fn):
        pass

    # ------------------------------------------------------------ attributes
    def t_vget(self, e, mod, st, fn):
        n = fn.sem[1]
        pym = importlib.import_module(mod.full)
        self.getter(e, pym, n, fn, {"ann": fn.sem[2]["ann"]}, None)

    def getter(self, e, owner, n, fn, ann, recv):
        args = [recv] if fn.recv else []
        anyret = self.anyret(fn)
        has = n in vars(owner) if hasattr(owner, "__dict__") else False
        orig = vars(owner).get(n) if has else None
        for k in range(self.conf.get("rounds", 4)):
            if k:
                setattr(owner, n, self.value(ann))
            snap = self.snapshot(owner)
            cur = getattr(owner, n)
            kind, got = self.call(e, *args)
            self.count("reads compared")
            if kind != "ok" or anyret and got is not cur and not (callable(cur) and got == cur) or not self.values.similar(cur, got):
                self.bad(e, f"attribute {n} is {self.values.show(cur)}, but the getter gave {kind} {self.values.show(got)}")
            if snap != self.snapshot(owner):
                self.bad(e, f"reading {n} changed the attributes")
        if len(self.samples) < 6:
            self.samples.append({"read": self.where(e), "last value": self.values.show(cur, 80), "got": self.values.show(got, 80)})
        if has:
            setattr(owner, n, orig)
        elif hasattr(owner, "__dict__"):
            vars(owner).pop(n, None)

    def snapshot(self, owner):
        return {k: id(x) for k, x in vars(owner).items()} if hasattr(owner, "__dict__") else {}

    def t_vset(self, e, mod, st, fn):
        n = fn.sem[1]
        owner = importlib.import_module(mod.full)
        ann = {"ann": fn.sem[2]["ann"]}
        orig = vars(owner)[n]
        getters = [x for x in self.conf["entries"] if x["gen"] == e["gen"] and x["mod"] == e["mod"] and "struct" not in x
                   and x.get("x") is not None and x["x"].sem[:2] == ("vget", n)]
        for k in range(self.conf.get("rounds", 4)):
            val = self.value(ann)
            snap = self.snapshot(owner)
            self.vrec.LOG.clear()
            kind, got = self.call(e, val)
            self.count("writes compared")
            if kind != "ok":
                self.bad(e, f"writing {self.values.show(val)} raised {got!r}")
                continue
            cur = vars(owner).get(n)
            if not self.values.same(val, cur):
                self.bad(e, f"wrote {self.values.show(val)}, but attribute {n} is {self.values.show(cur)}")
            snap2 = self.snapshot(owner)
            snap.pop(n, None), snap2.pop(n, None)
            if snap != snap2:
                self.bad(e, f"writing {n} changed other attributes: {sorted(set(snap.items()) ^ set(snap2.items()))}")
            if self.vrec.LOG:
                self.bad(e, "writing called something", log=self.vrec.LOG)
            for g in getters:
                kind, got = self.call(g)
                self.count("reads after writes compared")
                if kind != "ok" or not self.values.similar(cur, got):
                    self.bad(g, f"after the setter, attribute {n} is {self.values.show(cur)}, but the getter gave {kind} {self.values.show(got)}")
        setattr(owner, n, orig)

    def t_pget(self, e, mod, st, fn):
        _, n, kind, p = fn.sem
        cls = self.cls(st.ref)
        obj = cls.__new__(cls)
        if kind == "attr":
            self.getter(e, obj, n, fn, {"ann": p["ann"]}, obj)
            other = cls.__new__(cls)
            k, got = self.call(e, other)
            if k != "ok" or not self.values.similar(getattr(other, n), got):
                self.bad(e, f"another instance has {self.values.show(getattr(other, n))}, but the getter gave {k} {self.values.show(got)}")
            return
        if kind == "native":
            if n == "__init__":
                cur = getattr(obj, n)
            k, got = self.call(e, obj)
            if k != "ok" or not (got == getattr(obj, n) or got is getattr(obj, n)):
                self.bad(e, f"attribute {n} is {getattr(obj, n)!r}, but the getter gave {k} {got!r}")
            return
        if kind == "prop" and p.get("wo"):
            self.vrec.LOG.clear()
            k, got = self.call(e, obj)
            self.count("reads of properties that can only be written")
            if k != "raise" or not isinstance(got, AttributeError) or self.vrec.LOG:
                self.bad(e, f"the property {n} can only be written, but the getter gave {k} {self.values.show(got)}")
            return
        objs = [obj, cls.__new__(cls)]
        for k in range(self.conf.get("rounds", 4) + 2):
            o = self.r.choice(objs)
            if not hasattr(o, "_vstore"):
                object.__setattr__(o, "_vstore", {})
            cur = o._vstore[p["id"]] = self.values.gen(self.r, p["get"]["ann"] if p["get"] else None, self.inst)
            self.vrec.LOG.clear()
            self.vrec.PLAN.clear()
            exc = exceptions(self.r) if k % 3 == 2 else None
            if exc:
                self.vrec.PLAN[p["id"]] = ("raise", exc)
            kind, got = self.call(e, o)
            self.vrec.PLAN.clear()
            log = list(self.vrec.LOG)
            self.count("reads compared")
            if len(log) != 1 or log[0][0] != p["id"] + "/get" or log[0][2] is not o:
                self.bad(e, f"reading the property {n} ran {self.values.show(log)}")
            if exc:
                self.count("exceptions compared")
                if kind != "raise" or got is not exc:
                    self.bad(e, f"the property raised {exc!r}, but the getter gave {kind} {self.values.show(got)}")
            elif kind != "ok" or self.anyret(fn) and got is not cur or not self.values.similar(cur, got):
                self.bad(e, f"property {n} is {self.values.show(cur)}, but the getter gave {kind} {self.values.show(got)}")

    def t_pset(self, e, mod, st, fn):
        _, n, kind, p = fn.sem
        cls = self.cls(st.ref)
        objs = [cls.__new__(cls), cls.__new__(cls)]
        for k in range(self.conf.get("rounds", 4) + 2):
            o, o2 = self.r.sample(objs, 2)
            for x in objs:
                if not hasattr(x, "_vstore"):
                    object.__setattr__(x, "_vstore", {})
            val = self.value(p["set"]["ann"])
            before = [(id(x), dict(x._vstore)) for x in objs]
            self.vrec.LOG.clear()
            self.vrec.PLAN.clear()
            exc = exceptions(self.r) if k % 3 == 2 else None
            if exc:
                self.vrec.PLAN[p["id"]] = ("raise", exc)
            kind, got = self.call(e, o, val)
            self.vrec.PLAN.clear()
            log = list(self.vrec.LOG)
            self.count("writes compared")
            if len(log) != 1 or log[0][0] != p["id"] + "/set" or log[0][2] is not o:
                self.bad(e, f"writing the property {n} ran {self.values.show(log)}")
                continue
            if not self.values.same(val, log[0][1]["value"]):
                self.bad(e, f"wrote {self.values.show(val)}, but the setter of {n} received {self.values.show(log[0][1]['value'])}")
            if exc:
                self.count("exceptions compared")
                if kind != "raise" or got is not exc:
                    self.bad(e, f"the setter raised {exc!r}, but the binding gave {kind} {self.values.show(got)}")
            elif kind != "ok":
                self.bad(e, f"the setter gave {got!r}")
            for i, s in before:
                x = next(y for y in objs if id(y) == i)
                a, b = dict(x._vstore), dict(s)
                if x is o:
                    a.pop(p["id"], None), b.pop(p["id"], None)
                if a.keys() != b.keys() or any(a[q] is not b[q] for q in a):
                    self.bad(e, f"writing {n} changed something else")


class Glue(Exception):
    pass


def _walk(a):
    yield a
    if a[0] != "cls":
        for x in a[1:]:
            yield from _walk(x)
