//! Known findings: defects of the code under test that are recorded instead of
//! repaired, in /verif/known_findings.jsonl. One line each:
//! {"property", "finding", "what", "case"}. The saved case is replayed on
//! every run; the KNOWN-FINDING line is printed only while it still fails in
//! the recorded way.
use std::fs;
use std::io::Write;
use std::path::Path;
use crate::run::{guard, Ctx, Prop};

pub fn print_known<P: Prop>(root: &Path, out: &mut dyn Write) -> i32 {
    let text = match fs::read_to_string(root.join("known_findings.jsonl")) {
        Ok(t) => t,
        Err(_) => return 0,
    };
    for line in text.lines().filter(|l| l.starts_with('{')) {
        let v: serde_json::Value = serde_json::from_str(line).expect("known_findings.jsonl");
        if v["property"] != P::ID {
            continue;
        }
        let case: P::Case = serde_json::from_value(v["case"].clone()).expect("known finding's case");
        let mut ctx = Ctx::default();
        let _ = guard(|| P::check(&case, &mut ctx));
        let name = v["finding"].as_str().unwrap_or("");
        if ctx.known.iter().any(|k| k == name) {
            writeln!(out, "KNOWN-FINDING: property={} {}: {}", P::ID, name, v["what"].as_str().unwrap_or("")).unwrap();
        }
    }
    0
}
