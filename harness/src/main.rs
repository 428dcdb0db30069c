mod common;
mod props1;
mod props2;
use common::{hash_str, Rng};
use props1::R;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
thread_local! { static TAGS: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) }; }
pub fn tag(s: &str) { TAGS.with(|t| *t.borrow_mut().entry(s.to_string()).or_default() += 1) }
type F = fn(&mut Rng) -> R;
fn table() -> Vec<(&'static str, &'static str, F)> {
    use props1::*; use props2::*;
    macro_rules! t { ($($p:literal $f:ident),* $(,)?) => { vec![$(($p, stringify!($f), $f as F)),*] } }
    t! { "C01" c01_window, "C01" c01_clock, "C01" c01_chain, "C01" c01_big, "C02" c02_big, "C03" c03_big, "C04" c04_big, "C06" c06_big, "C07" c07_big, "C08" c08_big, "C02" c02_sig, "C02" c02_bytes, "C02" c02_chain, "C03" c03_lifetime, "C03" c03_link, "C03" c03_chain,
         "C04" c04_structure, "C04" c04_build, "C04" c04_memory, "C05" c05_select, "C05" c05_build, "C06" c06_sound, "C07" c07_complete, "C08" c08_bounds,
         "C09" c09_enables, "C10" c10_caveats, "C11" c11_json, "C11" c11_seq, "C11" c11_conv, "C12" c12_parse, "C12" c12_print, "C13" c13_resolve, "C13" c13_ctors,
         "C14" c14_roundtrip, "C14" c14_noncanonical, "C14" c14_malformed, "C15" c15_build, "C16" c16_ipld, "C17" c17_roundtrip, "C17" c17_decode, "C18" c18_principle,
         "C19" c19_store, "C19" c19_ucan_cid, "C20" c20_text, "C20" c20_bytes, "C20" c20_builder, "C20" c20_chain, "C21" c21_ed25519, "C21" c21_p256, "C21" c21_rsa, "AX" axioms }
}
fn one(f: F, seed: u64) -> Result<(), String> {
    match std::panic::catch_unwind(move || f(&mut Rng(seed))) { Ok(x) => x, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("file")).expect("json");
        let (n, s) = (j["test"].as_str().unwrap_or("").to_string(), j["case_seed"].as_u64().unwrap_or(0));
        let f = table().into_iter().find(|t| t.1 == n).expect("no such test").2;
        match one(f, s) { Ok(()) => { println!("holds: {n} case {s}"); } Err(e) => { println!("violated: {n} case {s}: {e}"); std::process::exit(1); } }
        return;
    }
    let (prop, seed, secs, out) = (a[1].clone(), get("--seed", "1").parse::<u64>().unwrap(), get("--secs", "4").parse::<f64>().unwrap(), get("--out", ""));
    let only = get("--test", "");
    // a property's own tests, and those of the properties its own rests on
    let also = match prop.as_str() {
        "C01" => "c04_build c14_noncanonical", "C02" => "c13_resolve c14_noncanonical c14_malformed c21_ed25519 c21_p256 c21_rsa", "C03" => "c04_build", "C04" => "c14_malformed c19_store",
        "C05" => "c07_complete c12_parse", "C06" => "c07_complete c09_enables c12_parse c11_json", "C07" => "c06_sound c09_enables c12_parse c11_json", "C08" => "c03_lifetime c03_chain c06_sound",
        "C09" => "c10_caveats", "C12" => "c09_enables", "C14" => "c19_ucan_cid c11_json", "C15" => "c14_roundtrip c12_print", "C16" => "c17_roundtrip c17_decode c18_principle c14_roundtrip", _ => "" };
    let tests: Vec<_> = table().into_iter().filter(|t| (t.0 == prop || also.split(' ').any(|x| x == t.1)) && (only.is_empty() || t.1 == only)).collect();
    let per = Duration::from_secs_f64(secs / tests.iter().filter(|t| t.0 == prop).count().max(1) as f64 / if also.is_empty() { 1.0 } else { 1.4 });
    let cap = get("--max", "200000").parse::<u64>().unwrap();
    let mut report = vec![];
    let mut failed = None;
    let handles: Vec<_> = tests.into_iter().map(|(_, name, f)| (name, f, std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let t0 = Instant::now(); let mut n = 0u64; let base = hash_str(name) ^ seed.wrapping_mul(0x9E3779B97F4A7C15); let mut bad = None;
        while n < cap && (n < 50 || t0.elapsed() < per * 2) { let s = base.wrapping_add(n.wrapping_mul(0xD1342543DE82EF95)); n += 1; if let Err(e) = one(f, s) { bad = Some((s, e)); break; } }
        (n, bad, TAGS.with(|t| t.borrow().clone()), t0.elapsed().as_secs_f64())
    }).unwrap())).collect();
    for (name, _, h) in handles {
        let (n, bad, tags, t) = h.join().expect("thread");
        if let (Some((s, e)), None) = (bad, &failed) { failed = Some(serde_json::json!({"property": prop, "test": name, "case_seed": s, "what": e, "replay": "vharness replay <this file>"})); }
        report.push(serde_json::json!({"test": name, "cases": n, "outcomes": tags, "secs": t}));
    }
    let j = serde_json::json!({"property": prop, "seed": seed, "tests": report, "violation": failed});
    if !out.is_empty() { std::fs::write(&out, serde_json::to_string_pretty(&j).unwrap()).unwrap(); }
    match &failed { Some(f) => { println!("{}", f["what"].as_str().unwrap()); std::process::exit(1); } None => println!("{}", serde_json::to_string(&j["tests"]).unwrap()) }
}
