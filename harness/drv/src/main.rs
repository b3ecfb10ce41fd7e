//! Batch driver: runs code-generation jobs against the real pyo3_bindgen library and
//! records what was observed (outcome, panic message, generated item tree, Python-side probes).
//!
//! usage: drv JOBS.jsonl RESULTS.jsonl
mod model;

use pyo3_bindgen::pyo3::{self, prelude::*};
use pyo3_bindgen::{Codegen, Config, PyBindgenError};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn sel(v: &Value, key: &str) -> Option<bool> {
    v.get(key).and_then(Value::as_bool)
}

fn config(v: &Value) -> Config {
    let mut c = Config::builder().build();
    macro_rules! flag { ($($n:ident),*) => { $( if let Some(b) = sel(v, stringify!($n)) { c.$n = b; } )* } }
    flag!(
        traverse_submodules,
        generate_preludes,
        generate_imports,
        generate_classes,
        generate_type_vars,
        generate_functions,
        generate_properties,
        generate_docs,
        include_private,
        generate_dependencies,
        suppress_python_stdout,
        suppress_python_stderr
    );
    if let Some(b) = v.get("blocklist_names").and_then(Value::as_array) {
        c.blocklist_names = b.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    }
    c
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

enum Fail {
    Step(usize, PyBindgenError),
    Finish(PyBindgenError),
}

fn build_codegen(job: &Value) -> Result<Codegen, Fail> {
    let mut cg = match job.get("cfg") {
        Some(c) if !c.is_null() => Codegen::new(config(c)),
        _ => Codegen::default(),
    };
    for (i, step) in job["steps"].as_array().unwrap().iter().enumerate() {
        let f = |e| Fail::Step(i, e);
        let v = &step["v"];
        cg = match step["op"].as_str().unwrap() {
            "name" => cg.module_name(v.as_str().unwrap()).map_err(f)?,
            "names" => {
                let n = strs(v);
                let n: Vec<&str> = n.iter().map(String::as_str).collect();
                cg.module_names(n).map_err(f)?
            }
            "str" => cg
                .module_from_str(step["src"].as_str().unwrap(), v.as_str().unwrap())
                .map_err(f)?,
            "module" => Python::with_gil(|py| {
                let m = py.import_bound(v.as_str().unwrap()).map_err(PyBindgenError::from)?;
                cg.module(&m)
            })
            .map_err(f)?,
            "modules" => Python::with_gil(|py| {
                let ms = strs(v)
                    .iter()
                    .map(|n| py.import_bound(n.as_str()))
                    .collect::<PyResult<Vec<_>>>()
                    .map_err(PyBindgenError::from)?;
                cg.modules(ms)
            })
            .map_err(f)?,
            // go on from a copy of the generator and drop the original
            "clone" => cg.clone(),
            other => panic!("drv: unknown step {other}"),
        };
    }
    Ok(cg)
}

fn err_kind(e: &PyBindgenError) -> &'static str {
    match e {
        PyBindgenError::IoError(_) => "IoError",
        PyBindgenError::PyError(_) => "PyError",
        PyBindgenError::PyDowncastError => "PyDowncastError",
        PyBindgenError::SynError(_) => "SynError",
        PyBindgenError::ParseError(_) => "ParseError",
        PyBindgenError::CodegenError(_) => "CodegenError",
        PyBindgenError::Infallible(_) => "Infallible",
    }
}

/// Runs one generation and describes the outcome. Never panics itself on account of the library.
fn run_generation(job: &Value) -> Value {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let out = catch_unwind(AssertUnwindSafe(|| -> Result<Option<String>, Fail> {
        let cg = build_codegen(job)?;
        if let Some(path) = job.get("build").and_then(Value::as_str) {
            cg.build(path).map_err(Fail::Finish)?;
            Ok(None)
        } else {
            Ok(Some(cg.generate().map_err(Fail::Finish)?.to_string()))
        }
    }));
    match out {
        Err(_) => json!({"status": "panic", "error": LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default()}),
        Ok(Err(Fail::Step(i, e))) => json!({"status": "err", "stage": i, "kind": err_kind(&e), "error": e.to_string()}),
        Ok(Err(Fail::Finish(e))) => json!({"status": "err", "stage": "finish", "kind": err_kind(&e), "error": e.to_string()}),
        Ok(Ok(tokens)) => {
            let mut r = json!({"status": "ok"});
            if let Some(t) = tokens {
                r["len"] = json!(t.len());
                r["tokens"] = json!(t);
            }
            r
        }
    }
}

fn finish(job: &Value, r: &mut Value) {
    // A build() leaves its tokens in the file
    if r["status"] == "ok" && r.get("tokens").is_none() {
        if let Some(path) = job.get("build").and_then(Value::as_str) {
            if let Ok(t) = std::fs::read_to_string(path) {
                r["tokens"] = json!(t);
            }
        }
    }
    if let Some(t) = r.get("tokens").and_then(Value::as_str).map(str::to_owned) {
        let parsed = syn::parse_str::<syn::File>(&t);
        match parsed {
            Ok(f) => {
                if job.get("pretty").and_then(Value::as_str).is_some()
                    || job.get("pretty_inline").is_some()
                {
                    let p = prettyplease::unparse(&f);
                    if job.get("model_of_pretty").is_some() {
                        match syn::parse_str::<syn::File>(&p) {
                            Ok(f) => r["pretty_model"] = model::file(&f, job.get("bodies").is_some()),
                            Err(e) => r["pretty_error"] = json!(e.to_string()),
                        }
                    }
                    if let Some(path) = job.get("pretty").and_then(Value::as_str) {
                        std::fs::write(path, &p).unwrap();
                    } else {
                        r["pretty"] = json!(p);
                    }
                }
                if job.get("model").and_then(Value::as_bool).unwrap_or(true) {
                    r["model"] = model::file(&f, job.get("bodies").is_some());
                }
                r["syntax"] = json!(true);
            }
            Err(e) => {
                r["syntax"] = json!(false);
                r["syntax_error"] = json!(e.to_string());
            }
        }
        if !job.get("tokens").and_then(Value::as_bool).unwrap_or(false) {
            r.as_object_mut().unwrap().remove("tokens");
        }
    }
}

fn py_exec(code: &str) -> Option<String> {
    Python::with_gil(|py| {
        let main = py.import_bound("__main__").unwrap();
        let d = main.dict();
        py.run_bound(code, Some(&d), Some(&d)).err().map(|e| {
            let tb = e
                .traceback_bound(py)
                .and_then(|t| t.format().ok())
                .unwrap_or_default();
            format!("{tb}{e}")
        })
    })
}

fn py_eval(code: &str) -> Value {
    Python::with_gil(|py| {
        let main = py.import_bound("__main__").unwrap();
        let d = main.dict();
        match py.eval_bound(code, Some(&d), Some(&d)).and_then(|v| v.extract::<String>()) {
            Ok(s) => serde_json::from_str(&s).unwrap_or(Value::String(s)),
            Err(e) => json!({"probe_error": e.to_string()}),
        }
    })
}

fn run_job(job: &Value) -> Value {
    let mut out;
    if let Some(p) = job.get("pre").and_then(Value::as_str) {
        if let Some(e) = py_exec(p) {
            return json!({"status": "pre_error", "error": e});
        }
    }
    if let Some(path) = job.get("parse_file").and_then(Value::as_str) {
        let text = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => return json!({"status": "err", "error": e.to_string()}),
        };
        return match syn::parse_str::<syn::File>(&text) {
            Ok(f) => json!({"status": "ok", "model": model::file(&f, job.get("bodies").is_some()), "text_tokens": f.to_token_stream().to_string()}),
            Err(e) => json!({"status": "err", "error": e.to_string()}),
        };
    }
    let repeat = job.get("repeat").and_then(Value::as_u64).unwrap_or(1);
    if let Some(threads) = job.get("threads").and_then(Value::as_array) {
        // every element is a sub-job; all start together
        let barrier = Arc::new(Barrier::new(threads.len()));
        let results = Arc::new(Mutex::new(vec![Value::Null; threads.len()]));
        let start = std::time::Instant::now();
        std::thread::scope(|s| {
            for (i, sub) in threads.iter().enumerate() {
                let (barrier, results) = (barrier.clone(), results.clone());
                s.spawn(move || {
                    barrier.wait();
                    let pre_error = sub.get("pre").and_then(Value::as_str).and_then(py_exec);
                    let n = sub.get("repeat").and_then(Value::as_u64).unwrap_or(1);
                    let mut all = Vec::new();
                    for _ in 0..n {
                        let t0 = start.elapsed().as_micros() as u64;
                        let mut r = run_generation(sub);
                        let t1 = start.elapsed().as_micros() as u64;
                        finish(sub, &mut r);
                        r["t"] = json!([t0, t1]);
                        if let Some(e) = &pre_error {
                            r["pre_error"] = json!(e);
                        }
                        all.push(r);
                    }
                    if let Some(p) = sub.get("post").and_then(Value::as_str) {
                        all.last_mut().unwrap()["post"] = py_eval(p);
                    }
                    results.lock().unwrap()[i] = Value::Array(all);
                });
            }
        });
        let results = results.lock().unwrap().clone();
        out = json!({"status": "ok", "threads": results});
    } else {
        out = run_generation(job);
        if repeat > 1 {
            let mut same = 1u64;
            for k in 1..repeat {
                let again = run_generation(job);
                if again == out {
                    same += 1;
                } else {
                    out["differs_at"] = json!(k);
                    out["other"] = again;
                    break;
                }
                if let Some(p) = job.get("between").and_then(Value::as_str) {
                    let v = py_eval(p);
                    out["between"].as_array_mut().map(|a| a.push(v.clone())).unwrap_or_else(|| {
                        out["between"] = json!([v]);
                    });
                }
            }
            out["same"] = json!(same);
        }
        finish(job, &mut out);
    }
    if let Some(p) = job.get("post").and_then(Value::as_str) {
        out["post"] = py_eval(p);
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let jobs = std::fs::File::open(&args[1]).expect("jobs file");
    let mut results = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("results file");
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    // (in a cold run, the library is the first that needs a Python interpreter)
    if args.get(4).map(String::as_str) == Some("cold") {
        let line = std::io::BufReader::new(jobs).lines().nth(skip).unwrap().unwrap();
        let job: Value = serde_json::from_str(&line).expect("job json");
        writeln!(results, "{}", json!({"begin": job["id"]})).unwrap();
        let mut r = match catch_unwind(AssertUnwindSafe(|| run_job(&job))) {
            Ok(r) => r,
            Err(_) => json!({"status": "drv_panic", "error": LAST_PANIC.with(|p| p.borrow().clone())}),
        };
        r["id"] = job["id"].clone();
        writeln!(results, "{r}").unwrap();
        return;
    }
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        // `PYTHONPATH` etc. are honoured; keep byte code out of the fixture directories
        py.run_bound("import sys; sys.dont_write_bytecode = True", None, None).unwrap();
        // Python code can start generations itself: builtins.vdrv_generate(job_json) -> result_json
        let f = pyo3::types::PyCFunction::new_closure_bound(py, None, None, |args, _kw| -> PyResult<String> {
            let job: String = args.get_item(0)?.extract()?;
            let job: Value = serde_json::from_str(&job).expect("nested job json");
            let mut r = run_generation(&job);
            finish(&job, &mut r);
            Ok(r.to_string())
        })
        .unwrap();
        py.import_bound("builtins").unwrap().setattr("vdrv_generate", f).unwrap();
    });
    for line in std::io::BufReader::new(jobs).lines().skip(skip) {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).expect("job json");
        writeln!(results, "{}", json!({"begin": job["id"]})).unwrap();
        results.flush().unwrap();
        if let Some(paths) = job.get("sys_path") {
            for p in strs(paths) {
                py_exec(&format!("import sys, importlib\np={}\nif p not in sys.path: sys.path.insert(0, p)\nimportlib.invalidate_caches()", serde_json::to_string(&p).unwrap()));
            }
        }
        let mut r = match catch_unwind(AssertUnwindSafe(|| run_job(&job))) {
            Ok(r) => r,
            Err(_) => json!({"status": "drv_panic", "error": LAST_PANIC.with(|p| p.borrow().clone())}),
        };
        r["id"] = job["id"].clone();
        writeln!(results, "{r}").unwrap();
        results.flush().unwrap();
    }
}
