//! Harness which runs the real node_tree crate under the control of the checks in /verif.
mod alloc;
mod core;
mod gen_ops;
mod nodes;
mod obj;

use serde_json::{Value, json};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};

#[global_allocator]
static ALLOC: alloc::Quarantine = alloc::Quarantine::new();

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// What the crate prints itself is of no interest here.
fn silence() {
    use std::os::fd::AsRawFd;
    unsafe extern "C" { fn dup2(a: i32, b: i32) -> i32; }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe { dup2(null.as_raw_fd(), 1); }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_PANICS").is_ok() { eprintln!("{i}"); }
    }));
}

fn scratch() -> std::path::PathBuf {
    let p = std::path::PathBuf::from(arg("--scratch").expect("--scratch"));
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn run_trace(out: &File, id: &Value, g: gen_ops::Gen, script: Option<Vec<Value>>) {
    let mut f = out.try_clone().unwrap();
    writeln!(f, "{}", json!({ "e": "begin", "id": id })).unwrap();
    core::install(core::Drv::new(f, g, script.map(|s| s.into()), scratch()));
    core::run_top();
    let d = core::d();
    d.flush();
    // The tree is left alone: its nodes are never used again.
}

/// Two trees in one process, taking turns or in two threads; each is recorded as a run of its own.
/// `solo` runs one of them (1 or 2) as it would have been, without the other.
fn run_twins(out: &File, id: &str, seeds: [u64; 2], prof: &Value, solo: Option<u64>, script: Option<Vec<Value>>) {
    let how = prof["twin"].as_str().unwrap_or("turns").to_string();
    let side = arg("--out").unwrap() + ".two";
    let mut second = File::create(&side).unwrap();
    let begin = |f: &mut File, k: u64| writeln!(f, "{}", json!({ "e": "begin", "id": format!("{id}&{k}") })).unwrap();
    begin(&mut second, 2);
    let mut first = out.try_clone().unwrap();
    if solo != Some(2) { begin(&mut first, 1); }
    let make = |k: usize, f: &File, dir: &str| {
        let s = scratch().join(dir);
        std::fs::create_dir_all(&s).unwrap();
        let mut v = core::Drv::new(f.try_clone().unwrap(), gen_ops::Gen::new(seeds[k], prof.clone()), None, s);
        v.number = k as u64 + 1;
        v.turns = gen_ops::Rng(seeds[k] ^ 0x5eed);
        v
    };
    if let Some(mut ops) = script.map(std::collections::VecDeque::from) {
        if let Some(k) = solo { ops.retain(|o| o["tr"].as_u64() == Some(k)); }
        let (mut a, mut b) = (make(0, &first, "one"), make(1, &second, "two"));
        a.shared = &mut ops;
        b.shared = &mut ops;
        core::install_pair(a, Some(b), 0.0);
        core::run_top();
    } else if how == "threads" {
        std::thread::scope(|sc| {
            for k in 0..2 {
                if solo.is_some_and(|x| x != k as u64 + 1) { continue; }
                let f = if k == 0 { first.try_clone().unwrap() } else { second.try_clone().unwrap() };
                let make = &make;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    core::install(make(k, &f, if k == 0 { "one" } else { "two" }));
                    core::run_top();
                    core::d().flush();
                }).unwrap();
            }
        });
    } else {
        match solo {
            Some(2) => core::install(make(1, &second, "two")),
            Some(_) => core::install_pair(make(0, &first, "one"), None, 0.2),
            None    => core::install_pair(make(0, &first, "one"), Some(make(1, &second, "two")), 0.2),
        }
        core::run_top();
        core::other();
        core::run_top();
    }
    let mut text = String::new();
    std::io::Read::read_to_string(&mut File::open(&side).unwrap(), &mut text).unwrap();
    if solo != Some(1) { first.write_all(text.as_bytes()).unwrap(); }
    let _ = std::fs::remove_file(&side);
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    silence();
    match mode.as_str() {
        // Random operations: --seed N --traces K --profile FILE --out FILE
        "random" => {
            let seed: u64 = arg("--seed").unwrap().parse().unwrap();
            let traces: u64 = arg("--traces").unwrap().parse().unwrap();
            let prof: Value = serde_json::from_str(&std::fs::read_to_string(arg("--profile").unwrap()).unwrap()).unwrap();
            let out = std::fs::OpenOptions::new().create(true).append(true).open(arg("--out").unwrap()).unwrap();
            let from: u64 = arg("--from").map(|x| x.parse().unwrap()).unwrap_or(0);
            for k in from..traces {
                let mut r = gen_ops::Rng(seed.wrapping_mul(1_000_003).wrapping_add(k));
                let s = r.next();
                if prof.get("twin").is_some() {
                    if let Some(only) = arg("--only") { if only != k.to_string() { continue; } }
                    run_twins(&out, &format!("{}/{}", seed, k), [s, r.next()], &prof, arg("--solo").map(|x| x.parse().unwrap()), None);
                    continue;
                }
                run_trace(&out, &json!(format!("{}/{}", seed, k)), gen_ops::Gen::new(s, prof.clone()), None);
            }
        }
        // Operations from a file, one {"id", "ops"} per line: --in FILE --out FILE [--skip N]
        "script" => {
            let out = std::fs::OpenOptions::new().create(true).append(true).open(arg("--out").unwrap()).unwrap();
            let skip: usize = arg("--skip").map(|x| x.parse().unwrap()).unwrap_or(0);
            for line in BufReader::new(File::open(arg("--in").unwrap()).unwrap()).lines().skip(skip) {
                let line = line.unwrap();
                if line.trim().is_empty() { continue; }
                let v: Value = serde_json::from_str(&line).unwrap();
                let ops = v["ops"].as_array().unwrap().clone();
                if ops.first().is_some_and(|o| o.get("tr").is_some()) {
                    run_twins(&out, v["id"].as_str().unwrap(), [0, 0], &json!({}), arg("--solo").map(|x| x.parse().unwrap()), Some(ops));
                    continue;
                }
                run_trace(&out, &v["id"], gen_ops::Gen::new(0, json!({})), Some(ops));
            }
        }
        // Runs of objects from a file, one {"id", "kind", "start", "ops"} per line: --in FILE --out FILE [--skip N]
        "objects" => {
            let out = std::fs::OpenOptions::new().create(true).append(true).open(arg("--out").unwrap()).unwrap();
            let skip: usize = arg("--skip").map(|x| x.parse().unwrap()).unwrap_or(0);
            for line in BufReader::new(File::open(arg("--in").unwrap()).unwrap()).lines().skip(skip) {
                let line = line.unwrap();
                if line.trim().is_empty() { continue; }
                obj::run(&out, &serde_json::from_str(&line).unwrap());
            }
        }
        // Random runs of objects: --kind KIND --seed N --traces K --out FILE
        "robjects" => {
            let seed: u64 = arg("--seed").unwrap().parse().unwrap();
            let traces: u64 = arg("--traces").unwrap().parse().unwrap();
            let kind = arg("--kind").unwrap();
            let out = std::fs::OpenOptions::new().create(true).append(true).open(arg("--out").unwrap()).unwrap();
            let from: u64 = arg("--from").map(|x| x.parse().unwrap()).unwrap_or(0);
            for k in from..traces {
                let mut r = gen_ops::Rng(seed.wrapping_mul(1_000_003).wrapping_add(k));
                r.next();
                let mut run = obj::gen_obj::make(&kind, &mut r);
                run["id"] = json!(format!("{kind}/{seed}/{k}"));
                obj::run(&out, &run);
            }
        }
        _ => { eprintln!("unknown mode"); std::process::exit(2); }
    }
}
