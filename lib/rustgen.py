"""Generates a program that exposes every item of some bindings to Python, so that they can be exercised."""
import os
import re

import oracle
import vcommon as v

PRELUDE = r'''
#![allow(warnings)]
use pyo3::prelude::*;
use pyo3::types::*;
type R = PyResult<PyObject>;
type F = for<'a, 'py> fn(Python<'py>, &'a Bound<'py, PyTuple>) -> R;
fn glue(e: PyErr) -> PyErr {
    Python::with_gil(|py| pyo3::exceptions::PySystemError::new_err(format!("GLUE {}", e)))
}
fn dc(e: pyo3::DowncastError) -> PyErr { glue(PyErr::from(e)) }
fn arg<'py>(a: &Bound<'py, PyTuple>, i: usize) -> PyResult<Bound<'py, PyAny>> { a.get_item(i).map_err(glue) }
'''

MAIN = r'''
fn main() {
    let args: Vec<String> = std::env::args().collect();
    pyo3::prepare_freethreaded_python();
    let code = Python::with_gil(|py| -> i32 {
        let call = PyCFunction::new_closure_bound(py, None, None, |args: &Bound<'_, PyTuple>, _kw: Option<&Bound<'_, PyDict>>| -> R {
            let py = args.py();
            let i: usize = args.get_item(0)?.extract()?;
            let rest = args.get_item(1)?;
            let rest = rest.downcast::<PyTuple>()?;
            TABLE[i](py, rest)
        }).unwrap();
        let d = PyDict::new_bound(py);
        d.set_item("_vcall", call).unwrap();
        d.set_item("_vargs", args[2..].to_vec()).unwrap();
        d.set_item("__name__", "__main__").unwrap();
        let code = std::fs::read_to_string(&args[1]).unwrap();
        match py.run_bound(&code, Some(&d), Some(&d)) {
            Ok(()) => 0,
            Err(e) => { e.print(py); 3 }
        }
    });
    std::process::exit(code);
}
'''


def arg_expr(t, i):
    """Expression converting the Python object `arg(a, i)` to the parameter type `t` (normalised)."""
    a = f"arg(a, {i})?"
    if t.startswith("implpyo3::IntoPy<pyo3::Py<pyo3::types::PyAny>>"):
        return a
    if t.startswith("implpyo3::IntoPy<pyo3::Py<pyo3::types::PyTuple>>"):
        return f"{a}.downcast::<PyTuple>().map_err(dc)?.clone()"
    if t == "implpyo3::types::IntoPyDict":
        return f"{a}.downcast::<PyDict>().map_err(dc)?.clone()"
    if t == "&str":
        return f"&*{a}.extract::<String>().map_err(glue)?"
    if t == "&[u8]":
        return f"&{a}.extract::<Vec<u8>>().map_err(glue)?"
    if t.startswith("&["):
        return f"&{a}.extract::<Vec<_>>().map_err(glue)?"
    if t.startswith("&std::path::Path"):
        return f"&{a}.extract::<std::path::PathBuf>().map_err(glue)?"
    if t.startswith("&std::collections"):
        return f"&{a}.extract().map_err(glue)?"
    if t.startswith("&pyo3::Bound"):
        return f"{a}.downcast().map_err(dc)?"
    return f"{a}.extract().map_err(glue)?"


def ret_expr(t):
    if t in ("pyo3::PyResult<std::vec::Vec<u8>>",):
        return "PyBytes::new_bound(py, &v).into_py(py)"
    return "v.into_py(py)"


class Program:
    """Bindings of several generations, each in its own module, and a table of entry points."""

    def __init__(self):
        self.gens = []     # (file with bindings)
        self.entries = []  # metadata
        self.fns = []
        self.extra = []
        self.rustc = {}     # further arguments of rustc

    def add_gen(self, path, shape, select=lambda e: True):
        """Adds the bindings in file `path`; every item accepted by `select` gets an entry."""
        g = len(self.gens)
        self.gens.append(path)
        for mod in shape.walk():
            base = "::".join((f"g{g}",) + mod.path)
            for n, f in mod.fns.items():
                self._entry(dict(gen=g, kind="fn", mod=list(mod.path), name=n), f, f"{base}::{n}", False, select)
            for sn, s in mod.structs.items():
                for n, f in s.assoc.items():
                    self._entry(dict(gen=g, kind="assoc", mod=list(mod.path), struct=sn, name=n), f, f"{base}::{sn}::{n}", False, select)
                tr = getattr(s, "traitname", None)
                for n, f in s.trait.items():
                    self._entry(dict(gen=g, kind="trait", mod=list(mod.path), struct=sn, name=n), f,
                                f"<Bound<'_, {base}::{sn}> as {base}::{tr}>::{n}", f"{base}::{sn}", select)
        return g

    def add_path(self, g, meta, f, path):
        """An extra entry that calls function item `f` through another path."""
        self._entry({"gen": g, **meta}, f, path, False, lambda e: True)

    def _entry(self, meta, f, path, recv, select):
        meta["np"] = len(f["params"]) - (0 if recv else 1)
        if not select(meta):
            return
        i = len(self.entries)
        meta["i"] = i
        self.entries.append(meta)
        ps = [oracle.norm_type(t) for _, t in f["params"]]
        if not recv:
            ps = ps[1:]
        off = 1 if recv else 0
        args = ", ".join(arg_expr(t, k + off) for k, t in enumerate(ps))
        out = ret_expr(oracle.norm_type(f["ret"]))
        if recv:
            body = (f"let r = arg(a, 0)?; let r = r.downcast::<{recv}>().map_err(dc)?.clone(); "
                    f"let o = {path}(&r, {args}).map(|v| {out}); o")
        else:
            body = f"{path}(py, {args}).map(|v| {out})"
        self.fns.append(f"fn e{i}<'a, 'py>(py: Python<'py>, a: &'a Bound<'py, PyTuple>) -> R {{ {body} }}")

    def write(self, path):
        with open(path, "w", encoding="utf-8") as f:
            f.write(PRELUDE)
            for g, p in enumerate(self.gens):
                f.write(f"mod g{g} {{ include!({rust_str(p)}); }}\n")
            for x in self.extra:
                f.write(x + "\n")
            f.write("\n".join(self.fns) + "\n")
            f.write(f"static TABLE: &[F] = &[{', '.join(f'e{i}' for i in range(len(self.fns)))}];\n")
            f.write(MAIN)

    def build(self, name):
        src = os.path.join(v.workdir(), f"{name}.rs")
        exe = os.path.join(v.workdir(), name)
        self.write(src)
        ok, out = v.rustc(src, exe, bin=True, **self.rustc)
        return ok, out, exe


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
