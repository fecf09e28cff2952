mod config;
mod engine;
mod proj;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("engine") => {
            engine::main_engine(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(8))
        }
        Some(s @ ("config" | "archive" | "codegen" | "locate" | "builder")) => config::main_config(s),
        _ => {
            eprintln!("usage: axv engine [jobs]");
            std::process::exit(2)
        }
    }
}
