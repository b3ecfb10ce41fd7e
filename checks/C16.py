import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import execute
import vcommon as v
import world

STD = ["colorsys", "json", "string", "os", "os.path", "html.parser", "logging.handlers", "collections", "collections.abc", "email.mime", "bisect", "xml.etree", "subprocess", "typing", "math", "sys",
       "textwrap", "http.client", "concurrent.futures", "importlib.metadata", "decimal", "datetime", "zipfile", "csv", "uuid", "unittest.mock", "argparse", "ast", "enum", "random", "queue", "ctypes", "urllib.parse"]
MACRO = "::pyo3_bindgen::import_python!"
EXTRA = {
    "zznoisy/__init__.py": "import sys, os\nprint('NOISE' * 9)\nsys.stdout.write('pub fn noise() {}\\n')\nprint('NOISE', file=sys.stderr)\ndef f(a: int) -> int:\n    return a\n",
    "zznoisy/sub.py": "print('SUB')\ndef g(): ...\n",
    "zzraise.py": "def f(): ...\nraise RuntimeError('zz' + 'message')\n",
    "zzbase.py": "class E(BaseException): ...\nraise E('zz' + 'message')\n",
    "zzexit.py": "import sys\ndef f(): ...\nsys.exit(0)\n",
    "zzsyntax.py": "def f(: pass\n",
    "zzimport.py": "def f(): ...\nimport zz_not_there_at_all\n",
    "zzparent/__init__.py": "raise ValueError('zz' + 'message')\n",
    "zzparent/sub.py": "def f(): ...\n",
    "zzok.py": "def f(): ...\n",
    "zzgröße.py": "def f(ä: int = 1) -> str:\n    'größe \U0001f600'\n",
    "zzdocs.py": "'''module \"quoted\" \\\\ {braces} */ /* //! \u202e text'''\ndef f():\n    '''ünï \"x\" \\\\n #[doc] r#\"x\"#'''\n",
    "zzkw/__init__.py": "", "zzkw/type.py": "def fn(r, async_, self_): ...\nclass Self: ...\n", "zzkw/match/__init__.py": "x: int = 1\n", "zzkw/match/async.py": "def f(): ...\n",
    "zzodd.py": "for i, n in enumerate(['\"', \"'\", 'a b', '#', '//', '/*', '*/', \"'a\", 'r#x', 'r\"', 'b\"', '1', '1x', '-', '(', ')', '{', '}', '\\\\', 'a.b', '$', '@', '\\n', '', 'self', 'Self', 'super', 'crate', '_', 'r#self', 'as', '\"\"\"', 'x#y', 'c\"x\"', \"b'\"]):\n    n = n if n in ('self', 'Self', 'super', 'crate', '_', 'as') else f'{n}q{i}'\n"
                "    exec('def f(): pass', d := {'__name__': __name__}); globals()[n] = d['f']; globals()[f'K{i}q'] = type(f'K{i}q', (), {'__module__': __name__, n: d['f'], 'ok': lambda self, a: a, '__annotations__': {n: int}})\n"
                "def zz_kw(self, Self, super, crate, _, this: 'self.X' = 1): ...\nclass Zz:\n    def m(this, self, Self: int, _, crate: 'super'): ...\n    @staticmethod\n    def s(super, self): ...\n    def __call__(this, self): ...\ndef zz_last(a: 'x\"y', b: \"'z\", c: '/*', d: 'list[#]', e: 'r#self') -> 'List[\"]': ...\n",
    "zzempty.py": "", "zzbroken/__init__.py": "def f(): ...\n", "zzbroken/bad.py": "raise RuntimeError\n", "zzbroken/good.py": "def g(): ...\n",
}
# (arguments of the macro, why they are wrong)
WRONG = [("", "no argument"), ("zzok", "identifier"), ("1", "integer"), ("1.5", "float"), ("'z'", "character"), ("b\"zzok\"", "byte string"), ("c\"zzok\"", "C string"), ("\"zzok\", \"json\"", "two strings"),
         ("\"zzok\" \"json\"", "two strings"), ("concat!(\"zz\", \"ok\")", "macro"), ("stringify!(zzok)", "macro"), ("[\"zzok\"]", "array"), ("&\"zzok\"", "reference"), ("zzok.sub", "path"), ("zz::ok", "path"),
         ("true", "bool"), ("-1", "number"), ("name = \"zzok\"", "assignment"), ("\"zzok\"; \"json\"", "two strings"), ("\"zzok\" as x", "alias"), ("\"zzok\" extra", "trailing tokens"), ("br\"zzok\"", "byte string")]
FAILING = ["zz_missing", "zzok.missing", "zz_missing.sub", "json.zz_missing", "zzraise", "zzbase", "zzexit", "zzsyntax", "zzimport", "zzparent", "zzparent.sub", "zzbroken.bad", ".zzok", "zzok.", ".", "zz ok", "zzok\\0", " zzok",
           "zzok ", "zzok\\n", "zz/ok", "zzok;json", "-", "..zzok", "zzkw..type", "0"]


def literals(r, name):
    """The same string in several notations."""
    esc = "".join(c if r.random() < 0.5 else f"\\u{{{ord(c):x}}}" for c in name)
    hexa = "".join(c if r.random() < 0.5 or ord(c) > 127 else f"\\x{ord(c):02x}" for c in name)
    k = r.randint(1, len(name) - 1) if len(name) > 1 else 1
    return r.choice([f'("{name}")'] * 4 + [f'(r"{name}")', f'(r##"{name}"##)', f'("{esc}")', f'("{hexa}")', f'["{name}"]', f'{{"{name}"}}', f'(\n    "{name}"\n)', f'(/* x */ "{name}" /* y */)',
                     f'("{name[:k]}\\\n    {name[k:]}")'])


def call(lit):
    return f"{MACRO} {lit}" + ("" if lit.endswith("}") else ";")


def rustc(name, text, root, args, timeout=120):
    d = os.path.join(v.workdir(), "m")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{name}.rs")
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    cmd = ["rustc", "--edition", "2021", "-A", "warnings", "--crate-type", "lib", "--crate-name", name, "-L", f"dependency={os.path.join(v.MAC_TARGET, 'debug', 'deps')}", "--extern", f"pyo3={v.rlib('pyo3', v.MAC_TARGET)}",
           "--extern", f"pyo3_bindgen={v.rlib('pyo3_bindgen', v.MAC_TARGET)}", *args, p]
    try:
        return subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=v.child_env({"PYTHONPATH": root, "RUSTC_BOOTSTRAP": "1"}), cwd=d, timeout=v.limit(timeout), stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        v._hangs.append("rustc")
        return None


def expanded(name, text, root):
    return rustc(name, text, root, ["-Zunpretty=expanded"])


def check(rep):
    rep.rule = (
        "the real procedural macro is expanded by rustc for random packages and the standard library, alone and with other invocations in the same crate, and compared with the expansion of what the library generates;"
        " programs made of macro invocations are run like those of C05, C06 and C08; invalid arguments and modules must fail to compile; a case is a distinct source file"
    )
    v.build_drv()
    v.build_mac()
    v.canary()
    r = v.rng("c16")
    w = world.World("ma", 64 if v.THOROUGH else 24, opts={"mods": 4})
    root = w.root
    for n, src in EXTRA.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(src)
    own = [m for n in w.pkgs for m in w.pkgs[n]["order"] if not any(s.startswith("_") for s in m.split("."))]
    good = ["zznoisy", "zznoisy.sub", "zzok", "zzgröße", "zzdocs", "zzkw", "zzkw.type", "zzkw.match", "zzkw.match.async", "zzempty", "zzodd", "zzbroken", "zzbroken.good"]
    names = own + good + ["json"] + (STD if v.THOROUGH else r.sample(STD, 14))
    res = v.run_drv([{"id": n, "sys_path": [root], "steps": [{"op": "name", "v": n}], "tokens": True, "model": False} for n in names])
    toks = {}
    for n in names:
        if res[n]["status"] != "ok":
            raise v.Infra(f"no bindings of {n}: {str(res[n])[:500]}")
        toks[n] = res[n]["tokens"]
    crates = [[n] for n in names]
    crates += [[r.choice(names) for _ in range(r.randint(2, 5))] for _ in range(120 if v.THOROUGH else 30)]
    crates += [["json", "json"], ["zznoisy", "json", "zzok"], ["zzkw.type", "zzkw"], ["zzkw", "zzkw.match.async"]]
    jobs = []
    for i, mods in enumerate(crates):
        lits = [literals(r, n) for n in mods]
        a, b = [], []
        for k, (n, lit) in enumerate(zip(mods, lits)):
            if len(mods) == 1 and r.random() < 0.5:
                a.append(call(lit))
                b.append(toks[n])
            else:
                a.append(f"pub mod m{k} {{ pub fn before() {{}} {call(lit)} pub fn after() {{}} }}")
                b.append(f"pub mod m{k} {{ pub fn before() {{}} {toks.get(n) or ''} pub fn after() {{}} }}")
        jobs.append((f"c{i}", mods, lits, "\n".join(a), "\n".join(b)))

    def one(job):
        name, mods, lits, a, b = job
        return job, expanded(name, a, root), expanded(name, b, root)

    done = v.pmap(one, jobs)
    # the layout of the expansions depends on where the tokens come from
    parse = []
    for (name, *_), x, y in done:
        for tag, z in ("x", x), ("y", y):
            if z is not None and z.returncode == 0:
                p = os.path.join(v.workdir(), "m", f"{name}{tag}.out.rs")
                with open(p, "w", encoding="utf-8") as f:
                    f.write(z.stdout)
                parse.append({"id": name + tag, "steps": [], "parse_file": p, "model": False})
    parsed = v.run_drv(parse)

    def tokens(name):
        q = parsed[name]
        if q["status"] != "ok" or not q.get("syntax", True):
            raise v.Infra(f"expansion cannot be parsed: {str(q)[:500]}")
        return q["text_tokens"]

    for (name, mods, lits, a, b), x, y in done:
        detail = {"modules": mods, "source": a, "PYTHONPATH": root}
        rep.case((tuple(mods), tuple(lits)))
        if y is None or y.returncode != 0:
            # (what the library generates is judged by C01 and C02)
            raise v.Infra(f"the generated bindings of {mods} cannot be expanded: {y and y.stderr[-1500:]}")
        if x is None or x.returncode != 0:
            rep.violation(f"{lits}: the macro fails: {x and x.stderr[-500:]}", detail)
            continue
        rep.count("macro invocations expanded", len(mods))
        rep.count("lines compared", y.stdout.count("\n"))
        tx, ty = tokens(name + "x"), tokens(name + "y")
        rep.count("characters compared", len(ty))
        if tx != ty:
            k = next((k for k, (p, q) in enumerate(zip(tx, ty)) if p != q), min(len(tx), len(ty)))
            rep.violation(f"{lits}: the macro expands to something else than the library generates: ...{tx[max(0, k - 60):k + 100]!r} instead of ...{ty[max(0, k - 60):k + 100]!r}", {**detail, "expanded": x.stdout[:20000], "library": y.stdout[:20000]})
        rep.sample("expansion", {"source": a[:400], "lines": y.stdout.count("\n")}, 12)

    # failures
    def wrong(job):
        return job, rustc(job[0], job[1], root, ["--emit=metadata", "-o", os.path.join(v.workdir(), "m", job[0] + ".rmeta")])

    fails = []
    for k, (args, why) in enumerate(WRONG):
        fails.append((f"w{k}", f"{MACRO}({args});", f"argument: {why}", args))
        fails.append((f"w{k}o", f"pub mod a {{ {MACRO}(\"zzok\"); }}\npub mod b {{ {MACRO}({args}); }}", f"argument: {why}", args))
    for k, n in enumerate(FAILING):
        fails.append((f"f{k}", f'{MACRO}("{n}");', "module", n))
        fails.append((f"f{k}o", f'pub mod a {{ {MACRO}("{n}"); }}\npub mod b {{ {MACRO}("zzok"); }}', "module", n))
    for k in range(120 if v.THOROUGH else 30):
        n = r.choice(own)
        cut = r.choice([n + "x", n[:-1] + "_z", n.replace(".", "", 1) + ".q", n + ".zzz", n.upper() + "Z"])
        if cut not in names and cut.rsplit(".", 1)[0] + "" not in ():
            fails.append((f"r{k}", f'{MACRO}("{cut}");', "module", cut))
    for (name, src, kind, what), p in v.pmap(wrong, fails):
        rep.case(src)
        rep.count("compilations that must fail: " + kind.split(":")[0])
        detail = {"source": src, "PYTHONPATH": root, "output": p and p.stderr[-3000:]}
        if p is None:
            rep.violation(f"import_python!({what}) hangs", detail)
        elif p.returncode == 0 or os.path.exists(os.path.join(v.workdir(), "m", name + ".rmeta")):
            rep.violation(f"import_python!({what}) compiles although it cannot yield bindings", detail)
        elif "internal compiler error" in p.stderr or p.returncode < 0 or p.returncode > 101:
            rep.violation(f"import_python!({what}) crashes the compiler: {p.stderr[-300:]}", detail)
        elif "error" not in p.stderr:
            rep.violation(f"import_python!({what}) fails without an error", detail)
        rep.sample("failure", {"source": src[:200], "error": next((ln for ln in (p.stderr if p else "").splitlines() if "error" in ln), "")[:200]}, 8)

    # behaviour
    def prepare(name, path):
        with open(path, "w") as f:
            f.write(call(literals(r, name)) + "\n")

    w2 = world.World("mb", 48 if v.THOROUGH else 12, opts={"mods": 3})
    execute.run_world(rep, w2, ["fn", "new", "inst", "call", "class", "static", "vget", "vset", "pget", "pset"], rounds=2, per=3, tag="mb", prepare=prepare,
                      rustc={"target": v.MAC_TARGET, "extra": ["--extern", f"pyo3_bindgen={v.rlib('pyo3_bindgen', v.MAC_TARGET)}"], "env": {"PYTHONPATH": w2.root}})


v.main("C16", check)
