//! qv: property checks for the qesa crate.
//!   qv check <ID> [--tier quick|thorough] [--seed N] [--scale F] [--facet NAME]
//!   qv replay <file>
//!   qv list
#[macro_use]
mod eng;
mod gen;
mod proto;
mod attack;
mod p_cross;
mod p_copy;
mod p_ipa;
mod p_lmpa;
mod p_misc;
mod p_qesa;
mod p_dim;
mod p_short;

use eng::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

static OUT: Mutex<Option<File>> = Mutex::new(None);
static ERR: Mutex<Option<i32>> = Mutex::new(None);
fn say(s: &str) {
    let mut g = OUT.lock().unwrap();
    let f = g.as_mut().unwrap();
    let _ = writeln!(f, "{}", s);
    let _ = f.flush();
}

/// The code under test prints to stdout; our own reports go to a saved copy.
fn silence_stdout() {
    unsafe {
        let saved = dup(1);
        assert!(saved >= 0);
        *OUT.lock().unwrap() = Some(File::from_raw_fd(saved));
        let null = File::create("/dev/null").unwrap();
        use std::os::unix::io::AsRawFd;
        assert!(dup2(null.as_raw_fd(), 1) >= 0);
    }
}
/// Send standard output (and error) to a file until `restore`.
pub fn redirect(f: &File, also_stderr: bool) {
    use std::os::unix::io::AsRawFd;
    let _ = std::io::stdout().flush();
    unsafe {
        if also_stderr {
            let e = dup(2);
            assert!(e >= 0);
            *ERR.lock().unwrap() = Some(e);
            assert!(dup2(f.as_raw_fd(), 2) >= 0);
        }
        assert!(dup2(f.as_raw_fd(), 1) >= 0);
    }
}
pub fn restore() {
    use std::os::unix::io::AsRawFd;
    let _ = std::io::stdout().flush();
    let null = File::create("/dev/null").unwrap();
    unsafe {
        assert!(dup2(null.as_raw_fd(), 1) >= 0);
        if let Some(e) = ERR.lock().unwrap().take() {
            assert!(dup2(e, 2) >= 0);
            drop(File::from_raw_fd(e));
        }
    }
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_qesa::props());
    v.extend(p_ipa::props());
    v.extend(p_lmpa::props());
    v.extend(p_copy::props());
    v.extend(p_misc::props());
    v.extend(p_cross::props());
    v.extend(p_dim::props());
    for p in v.iter_mut() {
        if ["C02", "C08", "C09", "C12", "C13", "C14", "C17", "C23"].contains(&p.id) {
            p.facets.push(p_short::facet_for(p.id));
        }
    }
    v.sort_by(|a, b| a.id.cmp(b.id));
    v
}

fn home() -> String {
    std::env::var("QV_HOME").unwrap_or_else(|_| "/verif".into())
}

/// known_findings.txt: lines "known: property=C01 sig=<signature> <text>" and
/// "fixed: property=C01 <commit> <text>" (the latter suppress nothing).
fn load_known() -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", home())) {
        for l in s.lines() {
            if let Some(r) = l.trim().strip_prefix("known:") {
                let mut p = String::new();
                let mut g = String::new();
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = x.into();
                    }
                    if let Some(x) = w.strip_prefix("sig=") {
                        g = x.into();
                    }
                }
                v.push((p, g));
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    if args.len() < 2 {
        eprintln!("usage: qv check ID | qv replay FILE | qv list");
        std::process::exit(2);
    }
    silence_stdout();
    install_panic_hook();
    match args[1].as_str() {
        "list" => {
            for p in props() {
                let names: Vec<String> = p.facets.iter().map(|f| f.name().to_string()).collect();
                say(&format!("{} {}", p.id, names.join(" ")));
            }
        }
        "check" => {
            let seed = opt("--seed")
                .or_else(|| std::env::var("VERIF_SEED").ok())
                .and_then(|s| s.parse::<u64>().ok())
                .unwrap_or(1);
            let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
            let scale = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            std::process::exit(check(&args[2], tier, seed, scale, opt("--facet")));
        }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            std::process::exit(replay(&args[2], &v));
        }
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}

fn replay(path: &str, v: &Value) -> i32 {
    let id = v["property"].as_str().unwrap();
    let facet = v["facet"].as_str().unwrap();
    for p in props() {
        if p.id == id {
            for f in &p.facets {
                if f.name() == facet {
                    return match f.replay(&v["case"]) {
                        Ok(_) => {
                            say(&format!("replay of {}: the property holds", path));
                            0
                        }
                        Err(e) => {
                            say(&format!("{} [{}]", e.msg, e.sig));
                            say(&format!("VIOLATION property={} replay={}", id, path));
                            1
                        }
                    };
                }
            }
        }
    }
    eprintln!("no such property or facet");
    2
}

fn check(id: &str, tier: Tier, seed: u64, scale: f64, only: Option<String>) -> i32 {
    let start = Instant::now();
    let prop = match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    // a run that does not end is an error of the check, never a violation
    let limit: u64 = std::env::var("QV_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 800,
        Tier::Thorough => 6 * 3600,
    });
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("time limit of {} s reached: no answer", limit);
        std::process::exit(3);
    });
    let cfg = RunCfg { property: id.to_string(), tier, seed, known: load_known(), scale };
    let tiername = if tier == Tier::Quick { "quick" } else { "thorough" };
    let (mut cases, mut distinct) = (0u64, 0u64);
    let mut facets = serde_json::Map::new();
    let mut samples = vec![];
    let mut violations = 0;
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for f in &prop.facets {
        if let Some(o) = &only {
            if f.name() != o {
                continue;
            }
        }
        let r = f.run(&cfg);
        cases += r.cases;
        distinct += r.distinct;
        say(&format!(
            "{} {}: {} cases, {} non-trivial ({} distinct), {:.1} s{}",
            id,
            r.name,
            r.cases,
            r.nontrivial,
            r.distinct,
            r.wall,
            if r.failure.is_some() { ", FAILED" } else { "" }
        ));
        if std::env::var("QV_TAGS").is_ok() {
            for (t, c) in &r.tags {
                say(&format!("    {:6} {}", c, t));
            }
        }
        facets.insert(
            r.name.clone(),
            json!({"cases": r.cases, "nontrivial": r.nontrivial, "distinct_nontrivial": r.distinct,
                   "classes": r.tags, "wall_s": r.wall}),
        );
        samples.extend(r.samples);
        for (k, v) in r.known {
            let e = known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        if let Some((case, fail)) = r.failure {
            violations += 1;
            let dir = format!("{}/replay", home());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{}.json", dir, id, r.name, seed);
            let body = json!({"property": id, "facet": r.name, "seed": seed, "tier": tiername,
                              "signature": fail.sig, "message": fail.msg, "case": case});
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            say(&format!("{}", fail.msg));
            say(&format!("VIOLATION property={} replay={}", id, path));
        }
    }
    for (sig, (n, msg)) in &known {
        say(&format!("KNOWN-FINDING: property={} {} ({} cases): {}", id, sig, n, msg));
    }
    let ev = json!({
        "property": id, "tier": tiername, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "facets": facets,
            "known_findings": known.iter().map(|(k, v)| json!({"signature": k, "cases": v.0})).collect::<Vec<_>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    if only.is_none() {
        let dir = format!("{}/evidence", home());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if violations > 0 {
        1
    } else {
        0
    }
}
