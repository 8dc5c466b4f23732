//! baa-pbt check <ID> --seed N --tier quick|thorough --out part.json --replay-dir DIR --findings FILE
//! baa-pbt replay <file.json>
//! baa-pbt regen <suite> <chunk> <index> --seed N --out file.json
//! baa-pbt distinct <hash files>
//! baa-pbt list

use baa_pbt::engine::*;
use serde_json::{json, Value};
use std::time::Instant;

const PROFILE: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("regen") => regen(&args[1..]),
        Some("distinct") => {
            let mut all: Vec<u64> = vec![];
            for f in &args[1..] {
                let bytes = std::fs::read(f).expect("read hashes");
                all.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
            0
        }
        Some("literals") => {
            let (ints, strings) = baa_pbt::dict::literals();
            ints.iter().for_each(|i| println!("i {i}"));
            strings.iter().for_each(|s| println!("s {}", s.escape_default()));
            0
        }
        Some("list") => {
            for p in baa_pbt::props::all() {
                for s in &p.suites {
                    let kind = if is_heavy(s.name()) { "heavy" } else { "light" };
                    println!("{} {} {kind} quick={} thorough={}", p.id, s.name(), s.cases(false), s.cases(true));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: baa-pbt check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn load_findings(args: &[String]) {
    if let Some(f) = opt(args, "--findings") {
        let text = std::fs::read_to_string(f).unwrap_or_default();
        set_open_findings(parse_findings(&text).into_iter().map(|(p, s, _)| (p, s)).collect());
    }
}

fn check(args: &[String]) -> i32 {
    let id = args[0].clone();
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt(args, "--tier").as_deref() == Some("thorough");
    let scale: f64 = opt(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads: usize = opt(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit: u64 = opt(args, "--limit").and_then(|s| s.parse().ok()).unwrap_or(600);
    if let Some(f) = opt(args, "--trace") {
        set_trace(&f);
    }
    watch_for_stalls(opt(args, "--stall").and_then(|s| s.parse().ok()).unwrap_or(120));
    load_findings(args);
    let Some(mut p) = baa_pbt::props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if let Some(name) = opt(args, "--suite") {
        p.suites.retain(|s| s.name() == name);
    } else if args.iter().any(|a| a == "--light") {
        p.suites.retain(|s| !is_heavy(s.name()));
    }
    if let Some(s) = opt(args, "--deadline").and_then(|s| s.parse().ok()) {
        set_deadline(s);
    }
    // a run that does not end is an error of the check, never a violation
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: time limit of {limit} s reached: no answer");
        std::process::exit(3);
    });
    let start = Instant::now();
    let reports = run_property(&p, seed, thorough, scale, threads);
    let wall = start.elapsed().as_secs_f64();
    let replay_dir = opt(args, "--replay-dir").unwrap_or_else(|| "/tmp".into());
    let mut violations = vec![];
    let mut errors: Vec<String> = vec![];
    let mut suites = vec![];
    for r in &reports {
        if let Some(dir) = opt(args, "--hash-dir") {
            let bytes: Vec<u8> = r.stats.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
            if let Err(e) = std::fs::write(format!("{dir}/{}.{PROFILE}.hashes", r.name), bytes) {
                errors.push(format!("cannot write hashes: {e}"));
            }
        }
        errors.extend(r.errors.iter().cloned());
        suites.push(json!({
            "suite": r.name, "profile": PROFILE, "rule": r.rule, "evaluations": r.stats.evals,
            "nontrivial": r.stats.nontrivial, "distinct_nontrivial": r.distinct,
            "classes": r.stats.labels, "known": r.stats.known, "samples": r.stats.samples,
        }));
        if let Some(f) = &r.failure {
            let path = format!("{replay_dir}/{id}-{}-{PROFILE}-seed{seed}.json", r.name);
            let body = json!({"property": id, "suite": r.name, "profile": PROFILE, "seed": seed,
                "message": f.msg, "case_text": f.pretty, "case": f.case, "origin": f.origin});
            let _ = std::fs::create_dir_all(&replay_dir);
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
                errors.push(format!("cannot write replay file {path}: {e}"));
            }
            violations.push(json!({"suite": r.name, "profile": PROFILE, "replay": path, "message": f.msg, "case": f.pretty}));
        }
    }
    let out = json!({"property": id, "profile": PROFILE, "seed": seed, "wall_s": wall,
        "suites": suites, "violations": violations, "errors": errors});
    let text = serde_json::to_string_pretty(&out).unwrap();
    match opt(args, "--out") {
        Some(f) => std::fs::write(f, text).expect("write result"),
        None => println!("{text}"),
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        3
    } else {
        0
    }
}

fn regen(args: &[String]) -> i32 {
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let (chunk, index) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    for p in baa_pbt::props::all() {
        for s in &p.suites {
            if s.name() == args[0] {
                let Some((case, text)) = s.regenerate(seed, chunk, index) else { return 2 };
                let body = json!({"property": p.id, "suite": s.name(), "profile": PROFILE, "seed": seed,
                    "message": "crash or hang", "case_text": text, "case": case});
                let out = opt(args, "--out").expect("--out");
                std::fs::write(out, serde_json::to_string_pretty(&body).unwrap()).expect("write case");
                return 0;
            }
        }
    }
    2
}

fn replay(args: &[String]) -> i32 {
    load_findings(args);
    let text = std::fs::read_to_string(&args[0]).expect("read replay file");
    let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
    if v["profile"] != PROFILE {
        eprintln!("note: recorded with profile {}, this binary is {PROFILE}", v["profile"]);
    }
    for p in baa_pbt::props::all() {
        for s in &p.suites {
            if v["suite"] == s.name() {
                match s.replay(&v["case"]) {
                    Ok(Ok(())) => {
                        // hidden state may make a failure depend on the cases before it: repeat these as well
                        if let (Some(chunk), Some(cases), Some(seed)) =
                            (v["origin"][0].as_u64(), v["origin"][1].as_u64(), v["seed"].as_u64())
                        {
                            if let Some(f) = s.run_chunk(seed, chunk, cases).failure {
                                println!("replay of {}: VIOLATION after other cases\n  case: {}\n  {}", s.name(), f.pretty, f.msg);
                                return 1;
                            }
                        }
                        println!("replay of {}: no violation", s.name());
                        return 0;
                    }
                    Ok(Err(m)) => {
                        println!("replay of {}: VIOLATION\n  case: {}\n  {m}", s.name(), v["case_text"]);
                        return 1;
                    }
                    Err(e) => {
                        eprintln!("{e}");
                        return 2;
                    }
                }
            }
        }
    }
    eprintln!("unknown suite {}", v["suite"]);
    2
}
