#![allow(non_snake_case)]
pub mod ctx;
pub mod engine;
pub mod harness;
pub mod poly;
pub mod smt;
pub mod state;
pub mod f64like;
pub mod sym;

use std::io::Write;
use std::time::Duration;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// the code under test prints when verbose: keep stdout for the verdict
fn steal_stdout() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    unsafe {
        let fd = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(fd)
    }
}

/// the command line: list | check PROP | replay FILE
pub fn cli(hs: Vec<engine::H>) {
    let args: Vec<String> = std::env::args().collect();
    let mut out = steal_stdout();
    engine::install_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in &hs {
                let _ = writeln!(out, "{} {} {}", h.prop, h.name, if h.deep { "(thorough)" } else { "" });
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let h = hs.iter().find(|h| v["harness"] == h.name).expect("unknown harness");
            let vars = v["vars"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap())).collect();
            let ch: Vec<(String, usize)> = serde_json::from_value(v["choices"].clone()).unwrap();
            let (mut fails, mut inv) = engine::replay(h, &vars, &ch);
            if v["exact"] == true {
                inv = None;
                fails = engine::replay_exact(h, &vars, &ch, &mut smt::Solver::new()).into_iter().collect();
            }
            let _ = writeln!(out, "failing checks: {:?}\noutside assumptions: {:?}", fails, inv);
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        Some("check") => {
            let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
            let prop = args[2].clone();
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.iter().any(|a| a == "--thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            if let Some(d) = get("--dump") {
                let _ = std::fs::create_dir_all(&d);
                let _ = smt::DUMP.set(d);
            }
            let cfg = engine::Cfg {
                prop: prop.clone(),
                thorough,
                seed,
                threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
                deadline: Duration::from_secs(get("--deadline").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000 } else { 600 })),
                only: get("--only"),
                quiet: args.iter().any(|a| a == "--quiet"),
            };
            let o = engine::run(&hs, &cfg);
            let ev = get("--evidence").unwrap_or(format!("/verif/evidence/{}.json", prop));
            let rd = get("--replays").unwrap_or("/verif/replays".into());
            if cfg.only.is_none() || get("--evidence").is_some() {
                let _ = std::fs::create_dir_all(std::path::Path::new(&ev).parent().unwrap());
                std::fs::write(&ev, serde_json::to_string_pretty(&o.evidence).unwrap()).unwrap();
            }
            for k in &o.known {
                let _ = writeln!(out, "KNOWN-FINDING: property={} {}", prop, k);
            }
            let _ = std::fs::create_dir_all(&rd);
            for (i, v) in o.violations.iter().enumerate() {
                let p = format!("{}/{}-{}-{}.json", rd, prop, v["harness"].as_str().unwrap(), i);
                std::fs::write(&p, serde_json::to_string_pretty(v).unwrap()).unwrap();
                let _ = writeln!(out, "  {} / {}: {}", v["harness"].as_str().unwrap(), v["label"].as_str().unwrap(), v["observed"]);
                let _ = writeln!(out, "VIOLATION property={} replay={}", prop, p);
            }
            if !o.violations.is_empty() {
                std::process::exit(1);
            }
            if !o.errors.is_empty() {
                for e in o.errors.iter().take(8) {
                    let mut e = e.clone();
                    e.truncate(1500);
                    let _ = writeln!(out, "ERROR {}", e);
                }
                std::process::exit(2);
            }
            let _ = writeln!(
                out,
                "OK property={} paths={} queries={} wall={}s",
                prop, o.evidence["coverage"]["states"], o.evidence["coverage"]["solver"]["queries"], o.evidence["wall_s"]
            );
        }
        _ => {
            let _ = writeln!(out, "usage: symex check PROP | replay FILE | list");
            std::process::exit(2);
        }
    }
}
