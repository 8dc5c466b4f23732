//! libFuzzer target for every suite: BAA_SUITE names it, the input bytes drive its strategy.
//! Writes BAA_OUT.json (counts), BAA_OUT.hashes and, on a violation, BAA_REPLAY (exit 99).
//! With BAA_DUMP set it only writes the case that an input stands for.
#![no_main]

use baa_pbt::engine::*;
use libfuzzer_sys::fuzz_target;
use serde_json::json;
use std::cell::RefCell;

struct State {
    prop: &'static str,
    suite: &'static dyn DynSuite,
    run: Box<dyn FnMut(&[u8], &mut Stats) -> Option<Failure>>,
    stats: Stats,
    out: String,
}

/// The process has one thread that uses it; not a thread local, because it is read at exit.
struct Shared(RefCell<Option<State>>);
unsafe impl Sync for Shared {}
static STATE: Shared = Shared(RefCell::new(None));

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}

extern "C" fn at_exit() {
    if let Ok(mut s) = STATE.0.try_borrow_mut() {
        if let Some(s) = s.as_mut() {
            write_out(s);
        }
    }
}

fn write_out(s: &mut State) {
    s.stats.hashes.sort_unstable();
    s.stats.hashes.dedup();
    let bytes: Vec<u8> = s.stats.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.hashes", s.out), bytes);
    let body = json!({"suite": s.suite.name(), "profile": "libfuzzer", "rule": s.suite.rule(), "evaluations": s.stats.evals,
        "nontrivial": s.stats.nontrivial, "classes": s.stats.labels, "known": s.stats.known, "samples": s.stats.samples});
    let _ = std::fs::write(format!("{}.json", s.out), body.to_string());
}

fn setup() -> State {
    // libfuzzer's own hook aborts on every panic, also on those which a check expects
    install_panic_hook();
    set_fuzzing();
    let var = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{n} is not set"));
    let findings = std::fs::read_to_string(var("BAA_FINDINGS")).unwrap_or_default();
    set_open_findings(parse_findings(&findings).into_iter().map(|(p, s, _)| (p, s)).collect());
    let name = var("BAA_SUITE");
    for p in baa_pbt::props::all() {
        let p: &'static Property = Box::leak(Box::new(p));
        for s in &p.suites {
            if s.name() == name {
                unsafe { atexit(at_exit) };
                return State { prop: p.id, suite: &**s, run: s.fuzzer(), stats: Stats::default(), out: var("BAA_OUT") };
            }
        }
    }
    panic!("no suite {name}");
}

fuzz_target!(|data: &[u8]| {
    let mut s = STATE.0.borrow_mut();
    let s = s.get_or_insert_with(setup);
    if let Ok(path) = std::env::var("BAA_DUMP") {
        let (case, text) = s.suite.fuzz_case(data).expect("a case");
        let body = json!({"property": s.prop, "suite": s.suite.name(), "profile": "checked", "seed": 0,
            "message": "crash or hang", "case_text": text, "case": case});
        std::fs::write(path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        std::process::exit(0);
    }
    if s.stats.hashes.len() >= 1 << 24 {
        // bounded memory
        s.stats.hashes.clear();
    }
    if let Some(f) = (s.run)(data, &mut s.stats) {
        let body = json!({"property": s.prop, "suite": s.suite.name(), "profile": "checked", "seed": 0,
            "message": f.msg, "case_text": f.pretty, "case": f.case});
        let _ = std::fs::write(std::env::var("BAA_REPLAY").unwrap(), serde_json::to_string_pretty(&body).unwrap());
        write_out(s);
        std::process::exit(99);
    }
});
