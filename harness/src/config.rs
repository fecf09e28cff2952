//! Drives the directive parser, the archive of bindings and the choice of locations.
use autocxx_parser::{IncludeCpp, IncludeCppConfig, MultiBindings, UnsafePolicy};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// What a configuration says, as far as its users can tell. `probes` are names asked about.
pub fn summary(c: &IncludeCppConfig, probes: &[String]) -> Value {
    let sorted = |it: Vec<String>| {
        let mut v = it;
        v.sort();
        v.dedup();
        v
    };
    let ms = c.get_makestring_name();
    let allow = match c.bindgen_allowlist() {
        None => json!(["*"]),
        Some(l) => json!(sorted(
            l.map(|s| if s == ms { "(utilities)".to_string() } else { s }).collect()
        )),
    };
    json!({
        "includes": c.inclusions,
        "policy": match c.unsafe_policy {
            UnsafePolicy::AllFunctionsSafe => "safe",
            UnsafePolicy::AllFunctionsUnsafe => "unsafe",
            UnsafePolicy::ReferencesWrappedAllFunctionsSafe => "wrapped",
        },
        "parse_only": c.parse_only,
        "exclude_impls": c.exclude_impls,
        "exclude_utilities": c.exclude_utilities(),
        "bindgen": allow,
        "must": sorted(c.must_generate_list().collect()),
        "pods": sorted(c.get_pod_requests().to_vec()),
        "allowed": sorted(probes.iter().filter(|p| c.is_on_allowlist(p)).cloned().collect()),
        "blocked": sorted(probes.iter().filter(|p| c.is_on_blocklist(p)).cloned().collect()),
        "blocklist": sorted(c.get_blocklist().cloned().collect()),
        "ctorblocked": sorted(probes.iter().filter(|p| c.is_on_constructor_blocklist(p)).cloned().collect()),
        "opaque": sorted(c.get_opaquelist().cloned().collect()),
        "inst": sorted(c.instantiable.clone()),
        "name": c.get_mod_name().to_string(),
        "file": c.get_rs_filename(),
        "rust_types": sorted(c.rust_types.iter().map(|p| toks(p).replace(' ', "")).collect()),
        "subclasses": sorted(c.subclasses.iter().map(|s| format!("{}<{}", s.subclass, s.superclass)).collect()),
        "superclasses": sorted(c.superclasses().cloned().collect()),
        "funs": sorted(c.extern_rust_funs.iter().map(|f| format!("{}|{}|{}", toks(&f.path).replace(' ', ""), toks(&f.sig).replace(' ', ""), if f.has_receiver {"method"} else {"free"})).collect()),
        "concretes": sorted(c.concretes.0.iter().map(|(k, v)| format!("{k}={v}")).collect()),
        "externs": sorted(c.externs.0.iter().map(|(k, v)| format!("{k}={}{}", toks(&v.rust_path).replace(' ', ""), if v.opaque {" opaque"} else {""})).collect()),
    })
}

fn probes(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

fn parse(text: &str) -> Result<IncludeCppConfig, String> {
    syn::parse_str::<IncludeCppConfig>(text).map_err(|e| e.to_string())
}

fn config_one(text: &str, pr: &[String]) -> Value {
    let mut c = match parse(text) {
        Err(e) => return json!({"ok": false, "error": e}),
        Ok(c) => c,
    };
    let hash = c.get_hash();
    c.confirm_complete();
    let s = summary(&c, pr);
    let printed = c.to_token_stream().to_string();
    let back = match parse(&printed) {
        Err(e) => json!({"ok": false, "error": e}),
        Ok(mut c2) => {
            c2.confirm_complete();
            json!({"ok": true, "cfg": summary(&c2, pr)})
        }
    };
    json!({"ok": true, "cfg": s, "printed": printed, "back": back, "hash": hash.to_string()})
}

fn config_case(case: &Value, _dir: &std::path::Path) -> Value {
    let pr = probes(&case["probes"]);
    let rs: Vec<Value> = case["texts"].as_array().unwrap().iter()
        .map(|t| config_one(t.as_str().unwrap(), &pr)).collect();
    json!({"results": rs})
}

/// A history of one archive: insertions, writing to a file and reading it back, lookups.
fn archive_case(case: &Value, dir: &std::path::Path) -> Value {
    let mut mb = MultiBindings::default();
    let file = dir.join("gen.rs.json");
    let mut out = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let text = op["text"].as_str().unwrap_or("");
        out.push(match op["op"].as_str().unwrap() {
            "insert" => {
                let c = parse(text).unwrap();
                mb.insert(&c, op["code"].as_str().unwrap().parse().unwrap());
                json!("ok")
            }
            "reload" => {
                let s = serde_json::to_string(&mb).unwrap();
                std::fs::write(&file, &s).unwrap();
                mb = serde_json::from_str(&std::fs::read_to_string(&file).unwrap()).unwrap();
                json!("ok")
            }
            "get" => match mb.get(&parse(text).unwrap()) {
                Ok(t) => json!(t.to_string()),
                Err(_) => json!("missing"),
            },
            "macro" => {
                std::fs::write(&file, serde_json::to_string(&mb).unwrap()).unwrap();
                std::env::set_var("AUTOCXX_RS_JSON_ARCHIVE", &file);
                let ic: IncludeCpp = syn::parse_str(text).unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| ic.generate_rs().to_string()));
                std::env::remove_var("AUTOCXX_RS_JSON_ARCHIVE");
                json!(r.unwrap_or_else(|_| "missing".into()))
            }
            _ => unreachable!(),
        });
    }
    json!({"results": out})
}

/// Whole Rust files through the code generator into one archive, then looked up as the macro does.
fn codegen_case(case: &Value, dir: &std::path::Path) -> Value {
    for (n, t) in case["headers"].as_object().unwrap() {
        std::fs::write(dir.join(n), t.as_str().unwrap()).unwrap();
    }
    let auto = case["auto"].as_bool().unwrap_or(false);
    let opts = autocxx_engine::CodegenOptions::default();
    let mut parsed = Vec::new();
    for (i, f) in case["files"].as_array().unwrap().iter().enumerate() {
        let p = dir.join(format!("f{i}.rs"));
        std::fs::write(&p, f.as_str().unwrap()).unwrap();
        let mut pf = match autocxx_engine::parse_file(&p, auto) {
            Ok(p) => p,
            Err(e) => return json!({"status": "parse-error", "error": e.to_string()}),
        };
        if let Err(e) = pf.resolve_all(vec![dir.to_path_buf()], &[], None, &opts) {
            return json!({"status": "error", "error": format!("{e:?}")});
        }
        parsed.push(pf);
    }
    let codes: Vec<Value> = parsed.iter().flat_map(|p| p.get_rs_outputs())
        .map(|r| json!(autocxx_engine::generate_rs_single(r).code)).collect();
    let js = autocxx_engine::generate_rs_archive(parsed.iter().flat_map(|p| p.get_rs_outputs()));
    let file = dir.join("gen.rs.json");
    std::fs::write(&file, js).unwrap();
    std::env::set_var("AUTOCXX_RS_JSON_ARCHIVE", &file);
    let looks: Vec<Value> = case["lookups"].as_array().unwrap().iter().map(|l| {
        let ic: IncludeCpp = match syn::parse_str(l.as_str().unwrap()) {
            Ok(i) => i,
            Err(e) => return json!({"error": e.to_string()}),
        };
        match catch_unwind(AssertUnwindSafe(|| ic.generate_rs().to_string())) {
            Err(_) => json!("missing"),
            Ok(s) => {
                let m: Vec<usize> = codes.iter().enumerate().filter(|(_, c)| c.as_str() == Some(&s)).map(|(i, _)| i).collect();
                json!(m)
            }
        }
    }).collect();
    std::env::remove_var("AUTOCXX_RS_JSON_ARCHIVE");
    json!({"status": "ok", "n": codes.len(), "lookups": looks})
}

const VARS: [&str; 4] = ["AUTOCXX_RS_JSON_ARCHIVE", "AUTOCXX_RS_FILE", "AUTOCXX_RS", "OUT_DIR"];

fn set_env(env: &Value, dir: &std::path::Path) {
    for v in VARS {
        match env[v].as_str() {
            Some(x) => std::env::set_var(v, x.replace("@", dir.to_str().unwrap())),
            None => std::env::remove_var(v),
        }
    }
}

/// Which location the macro chooses in an environment. Archive files are made first.
fn locate_case(case: &Value, dir: &std::path::Path) -> Value {
    let text = case["text"].as_str().unwrap();
    for (n, t) in case["archives"].as_object().unwrap() {
        let p = dir.join(n);
        match t.as_str().unwrap() {
            "absent" => {}
            "garbage" => std::fs::write(p, "{ not json").unwrap(),
            "empty" => std::fs::write(p, "{}").unwrap(),
            "other" => {
                let mut mb = MultiBindings::default();
                mb.insert(&parse("#include \"other.h\" generate!(\"Other\")").unwrap(), "other;".parse().unwrap());
                std::fs::write(p, serde_json::to_string(&mb).unwrap()).unwrap();
            }
            _ => {
                let mut mb = MultiBindings::default();
                mb.insert(&parse(text).unwrap(), format!("from_{} ;", n.replace('.', "_")).parse().unwrap());
                std::fs::write(p, serde_json::to_string(&mb).unwrap()).unwrap();
            }
        }
    }
    set_env(&case["env"], dir);
    let ic: IncludeCpp = syn::parse_str(text).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| ic.generate_rs().to_string()));
    set_env(&json!({}), dir);
    json!({"result": r.map(|s| s.replace(dir.to_str().unwrap(), "@")).unwrap_or_else(|_| "panic".into())})
}

struct Ctx;
impl autocxx_engine::BuilderContext for Ctx {
    fn get_dependency_recorder() -> Option<Box<dyn autocxx_engine::RebuildDependencyRecorder>> {
        None
    }
}

fn walk(d: &std::path::Path, base: &std::path::Path, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, base, out)
            } else {
                out.push(p.strip_prefix(base).unwrap().to_str().unwrap().to_string())
            }
        }
    }
}

/// Runs the builder in an environment, then the macro in the environment that leaves behind.
fn builder_case(case: &Value, dir: &std::path::Path) -> Value {
    let src = dir.join("src");
    std::fs::create_dir_all(&src).unwrap();
    for (n, t) in case["headers"].as_object().unwrap() {
        std::fs::write(src.join(n), t.as_str().unwrap()).unwrap();
    }
    std::fs::write(src.join("main.rs"), case["rs"].as_str().unwrap()).unwrap();
    set_env(&case["env"], dir);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = autocxx_engine::Builder::<Ctx>::new(src.join("main.rs"), [&src]);
        if let Some(g) = case["gendir"].as_str() {
            b = b.custom_gendir(g.replace("@", dir.to_str().unwrap()).into());
        }
        b.build_listing_files().map(|s| (s.1, s.2)).map_err(|e| e.to_string())
    }));
    let (status, rs, cpp) = match r {
        Err(_) => ("panic".to_string(), vec![], vec![]),
        Ok(Err(e)) => (format!("error: {e}"), vec![], vec![]),
        Ok(Ok((r, c))) => ("ok".to_string(), r, c),
    };
    let rel = |v: &[std::path::PathBuf]| {
        let mut v: Vec<String> = v.iter().map(|p| p.strip_prefix(dir).unwrap_or(p).to_str().unwrap().to_string()).collect();
        v.sort();
        v
    };
    let mut files = Vec::new();
    walk(dir, dir, &mut files);
    files.retain(|f| !f.starts_with("src/"));
    files.sort();
    set_env(&json!({}), dir);
    json!({"status": status, "rs": rel(&rs), "cpp": rel(&cpp), "files": files})
}

pub fn main_config(sub: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let f: fn(&Value, &std::path::Path) -> Value = match sub {
        "config" => config_case,
        "archive" => archive_case,
        "codegen" => codegen_case,
        "locate" => locate_case,
        _ => builder_case,
    };
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let case: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let td = tempfile::tempdir().unwrap();
        let given = case["dir"].as_str().map(std::path::PathBuf::from);
        let dir = given.as_deref().unwrap_or(td.path());
        let mut v = match catch_unwind(AssertUnwindSafe(|| f(&case, dir))) {
            Ok(v) => v,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"status": "panic", "error": m})
            }
        };
        v["id"] = case["id"].clone();
        let mut o = std::io::stdout().lock();
        writeln!(o, "{v}").unwrap();
        o.flush().unwrap();
    }
}
