//! Runs the real engine on a header + directives and reports the projected result.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn run_case(case: &Value) -> Value {
    let id = case["id"].clone();
    let td = tempfile::tempdir().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| run_inner(case, td.path())));
    let mut v = match r {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            json!({"status":"panic","error":m})
        }
    };
    v["id"] = id;
    v
}

fn err_chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(" / ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

fn run_inner(case: &Value, dir: &Path) -> Value {
    if let Some(h) = case["header"].as_str() {
        std::fs::write(dir.join("input.h"), h).unwrap();
    }
    if let Some(m) = case["files"].as_object() {
        for (k, v) in m {
            std::fs::write(dir.join(k), v.as_str().unwrap()).unwrap();
        }
    }
    let rs = match case["rs"].as_str() {
        Some(s) => s.to_string(),
        None => format!(
            "use autocxx::prelude::*;\ninclude_cpp! {{\n#include \"input.h\"\n{}\n}}\n",
            case["directives"].as_str().unwrap_or("")
        ),
    };
    let rsf = dir.join("input.rs");
    std::fs::write(&rsf, &rs).unwrap();
    let auto = case["auto_allowlist"].as_bool().unwrap_or(false);
    let mut parsed = match autocxx_engine::parse_file(&rsf, auto) {
        Ok(p) => p,
        Err(e) => return json!({"status":"parse_error","error":err_chain(&e)}),
    };
    let args: Vec<String> = case["clang_args"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut opts = autocxx_engine::CodegenOptions::default();
    opts.force_wrapper_gen = case["force_wrapper"].as_bool().unwrap_or(false);
    if let Err(e) = parsed.resolve_all(vec![dir.to_path_buf()], &args, None, &opts) {
        return json!({"status":"error","error":err_chain(&e)});
    }
    let mut mods = vec![];
    let mut codes = vec![];
    for o in parsed.get_rs_outputs() {
        let s = autocxx_engine::generate_rs_single(o);
        match crate::proj::project(&s.code) {
            Ok(v) => mods.extend(v.as_array().unwrap().clone()),
            Err(e) => return json!({"status":"bad_rust","error":e,"code":s.code}),
        }
        codes.push((s.filename, s.code));
    }
    let mut out = json!({"status":"ok","mods":mods});
    let want_cpp = case["cpp"].as_bool().unwrap_or(false);
    let outdir = case["outdir"].as_str();
    if case["code"].as_bool().unwrap_or(false) {
        out["code"] = json!(codes.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
    }
    if want_cpp || outdir.is_some() {
        let mut cpp = vec![];
        for b in parsed.get_cpp_buildables() {
            match b.generate_h_and_cxx(&opts.cpp_codegen_options) {
                Ok(g) => {
                    for p in g.0 {
                        cpp.push((
                            p.header_name.clone(),
                            String::from_utf8_lossy(&p.header).to_string(),
                            p.implementation.as_ref().map(|i| String::from_utf8_lossy(i).to_string()),
                        ));
                    }
                }
                Err(e) => return json!({"status":"cxx_error","error":e.to_string()}),
            }
        }
        if let Some(od) = outdir {
            let od = Path::new(od);
            std::fs::create_dir_all(od).unwrap();
            for (i, (h, hc, im)) in cpp.iter().enumerate() {
                std::fs::write(od.join(h), hc).unwrap();
                if let Some(im) = im {
                    std::fs::write(od.join(format!("gen{i}.cc")), im).unwrap();
                }
            }
            for (f, c) in &codes {
                std::fs::write(od.join(f), c).unwrap();
            }
            if let Some(h) = case["header"].as_str() {
                std::fs::write(od.join("input.h"), h).unwrap();
            }
            if let Some(m) = case["files"].as_object() {
                for (k, v) in m {
                    std::fs::write(od.join(k), v.as_str().unwrap()).unwrap();
                }
            }
            std::fs::write(od.join("input.rs"), &rs).unwrap();
            std::fs::write(od.join("cxx.h"), autocxx_engine::get_cxx_header_bytes(false)).unwrap();
            out["rs_files"] = json!(codes.iter().map(|c| c.0.clone()).collect::<Vec<_>>());
        }
        if want_cpp {
            out["cpp"] = json!(cpp);
        }
    }
    out
}

pub fn main_engine(jobs: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let q = Arc::new(Mutex::new(lines.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let mut hs = vec![];
    for _ in 0..jobs {
        let q = q.clone();
        let out = out.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let n = q.lock().unwrap().pop_front();
                    let (_, l) = match n {
                        Some(x) => x,
                        None => break,
                    };
                    let case: Value = serde_json::from_str(&l).unwrap();
                    let v = run_case(&case);
                    let s = serde_json::to_string(&v).unwrap();
                    let mut o = out.lock().unwrap();
                    writeln!(o, "{s}").unwrap();
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    out.lock().unwrap().flush().unwrap();
}
