#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "stateful property-based testing: random programs against an unbounded-integer model",
 "C02": "property-based testing against an unbounded-integer model (num-bigint)",
 "C03": "property-based testing against a bit-by-bit model",
 "C04": "property-based testing against an unbounded-integer model",
 "C05": "property-based testing against an unbounded-integer model",
 "C06": "property-based testing against integer order on related operand pairs",
 "C07": "property-based testing of algebraic laws plus model-based map histories",
 "C08": "property-based testing: exactness and round trips against an integer model",
 "C09": "property-based testing: round trips and exactness against a bit model",
 "C10": "property-based testing: exactness and round trips against an integer model",
 "C11": "property-based testing against exact integer fractions",
 "C12": "property-based testing: renderings decoded by an independent reader",
 "C13": "property-based testing: grammar-generated numerals against exact integers, round trips",
 "C14": "structured fuzzing: mutated numerals and free text against an independent recogniser",
 "C15": "stateful property-based testing: update histories against a model",
 "C16": "stateful property-based testing: array histories against a map model",
 "C17": "stateful property-based testing: conversion chains against a map model",
 "C18": "property-based testing: extensional equality of array pairs built along different histories",
 "C19": "stateful property-based testing: entry enumeration against a map model",
 "C20": "stateful property-based testing: interning histories against a model",
 "C21": "stateful property-based testing: word-store request histories against a word-vector model",
 "C22": "property-based testing: serialisation round trips inside operation histories",
 "C23": "property-based testing of contract violations in builds with and without debug assertions",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": T[i],
        "level": "exploration",
        "level_note": "Generated-input search with shrinking on the real crate, in builds with and without debug assertions, against an "
                      "explicit oracle; finds counterexamples, proves nothing. Trusts the oracle in harness/src/model.rs, num-bigint, proptest "
                      "and the Rust toolchain. Deterministic for a given VERIF_SEED.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. KNOWN_FINDINGS.txt lists open findings and the defects repaired by fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
