"""Writes /verif/MANIFEST.json (the single source of the registered checks)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": ("runtime monitoring: stress workload of hostile Python modules with a termination/panic/parse monitor",
            "Real generations of awkward, random and standard-library modules under all configuration switches; every result is re-parsed by syn and checked for the items that must survive. Unseen inputs are sampled, not enumerated."),
    "C02": ("runtime monitoring: generated bindings of random packages are compiled against the real pyo3, with rustc as the oracle",
            "Random and adversarial packages, configurations and grids of annotations; well-formed packages only (see DESIGN.md for the listed name collisions)."),
    "C03": ("runtime monitoring: structural oracle over recorded generation results",
            "Every item of the real bindings of several hundred random packages is compared with the item tree known by construction; trusts CPython's import system, syn and the package generator."),
    "C04": ("runtime monitoring: differential oracle over recorded results under all configuration switches",
            "Every switch alone, in random combinations and blocklists, against the item tree known by construction and against the default configuration's result."),
    "C05": ("runtime monitoring: execution of compiled bindings with recorded call logs, checked against the call specification",
            "Generated programs are compiled and run; the Python side logs every call it receives, an oracle compares argument delivery, types, counts, results and exceptions."),
    "C06": ("runtime monitoring: execution of compiled class bindings with recorded call logs, checked against Python attribute lookup",
            "Constructors, instance/class/static/callable members, inheritance and re-exports, run for real; exceptions documented in DESIGN.md."),
    "C07": ("runtime monitoring: exhaustive annotation grids and round trips of values through compiled bindings",
            "The Rust types of a grid of annotations are compared with the documented mapping, and boundary values pass through compiled bindings in both directions with equality and type monitors."),
    "C08": ("runtime monitoring: execution of compiled accessors interleaved with Python-side mutation, checked against a model of the state",
            "Random histories of reads, writes and Python-side changes of variables, class attributes and properties; state outside the written attribute is snapshotted."),
    "C09": ("runtime monitoring: documentation oracle over recorded generation results",
            "Docstrings of random packages made of adversarial fragments, each with a unique marker; placement and content are compared with the structure known by construction."),
    "C10": ("runtime monitoring: token-level differential runs over processes, hash seeds, working directories, histories and request forms",
            "Exact token equality of recorded results; sources of nondeterminism that need other platforms are not explored."),
    "C11": ("runtime monitoring: metamorphic oracle over recorded results of permuted, duplicated and overlapping requests",
            "All orders of small request sets and random larger ones, against the union known by construction."),
    "C12": ("runtime monitoring: identity and content monitors on the standard streams around real, failing, nested and concurrent generations",
            "Python-side monitors record the stream objects and captured output; schedules are sampled with injected delays."),
    "C13": ("runtime monitoring: execution of compiled embedded bindings in fresh interpreters with execution-count monitors",
            "Sources made of adversarial text are embedded, compiled, run and compared byte by byte."),
    "C14": ("runtime monitoring: black-box runs of the real command-line tool, including injected file-system faults, against the library's result",
            "Requests, outputs and faults are sampled from a grid; the tool runs as an unprivileged user where permissions matter."),
    "C15": ("runtime monitoring: fault injection around build() with before/after snapshots of the target",
            "Targets, generators and file-system faults (missing directories, permissions, full devices, file size limits) from a grid."),
    "C16": ("runtime monitoring: real macro expansions by rustc compared item by item with the library's result",
            "Module names from random packages and the standard library, plus invalid arguments and failing modules."),
    "C17": ("runtime monitoring: resolution oracle over recorded results and identity monitors in compiled programs",
            "Re-exports, aliases, preludes and cross-module annotations of random packages, with Rust-side type identity and Python-side object identity checks."),
    "C18": ("runtime monitoring: before/after snapshots and call traces of the analysed code and of the interpreter state",
            "Logs of every call in the analysed modules, attribute snapshots, reference counts and interpreter state around real generations."),
    "C19": ("runtime monitoring: stress of concurrent generations with injected delays, compared with sequential results",
            "Schedules are sampled (GIL switch interval, sleeping imports, background Python threads), not enumerated; each result is compared token by token."),
}
NA = []

checks = []
for pid, (tech, note) in TECH.items():
    if not os.path.exists(os.path.join(ROOT, "checks", f"{pid}.py")):
        continue
    cmd = f"python3 checks/{pid}.py"
    checks.append({
        "property": pid, "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
        "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "exploration", "level_note": note,
    })
man = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": NA,
       "notes": "All checks are black-box: they build /repo's working tree unmodified (no hooks) and observe executions."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
