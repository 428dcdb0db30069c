//! Template and contract parser.
//! A template is Verus source with blocks
//!   /*@fn <id>
//!   <section> ...
//!   @*/
//! `/*@type <name>@*/`, `/*@const <name>@*/`.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct LoopC { pub inv: String, pub xinv: String, pub ens: String, pub dec: String, pub noauto: bool, pub attr: String }
#[derive(Debug, Clone, Default)]
pub struct Contract {
    pub id: String,
    pub ret: String,
    pub attr: String,
    pub spec: String,
    pub header: Option<String>,   // replacement impl header (maps trait impls onto shim traits)
    pub extra: String,            // ghost items placed in the impl block
    pub name: Option<String>,     // emitted function name
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub proofs: BTreeMap<String, String>,
    pub generics: Option<String>, // replacement generics of the function
    pub sig: Vec<(String, String)>, // parameter/return type overrides
    pub in_group: bool,
}
impl Contract {
    /// the annotations of loop k go to loop m[k], or are dropped
    pub fn renumber(&mut self, m: &BTreeMap<usize, usize>) {
        let names = |s: &str| -> String {
            let (mut out, mut cur) = (String::new(), String::new());
            let fl = |cur: &mut String, out: &mut String| {
                let mut w = cur.clone();
                for p in ["__it", "__out", "__s", "__y", "__x", "__bad", "__i", "__n"] { if let Some(r) = cur.strip_prefix(p) {
                    let (d, tail) = r.split_at(r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()));
                    if let Ok(k) = d.parse::<usize>() { w = format!("{p}{}{tail}", m.get(&k).copied().unwrap_or(90 + k)); break; } } }
                out.push_str(&w); cur.clear();
            };
            for c in s.chars() { if c.is_alphanumeric() || c == '_' { cur.push(c); } else { fl(&mut cur, &mut out); out.push(c); } }
            fl(&mut cur, &mut out);
            out
        };
        self.loops = std::mem::take(&mut self.loops).into_iter().filter_map(|(k, mut l)| { let k = *m.get(&k)?; for x in [&mut l.inv, &mut l.xinv, &mut l.ens, &mut l.dec] { *x = names(x); } Some((k, l)) }).collect();
        self.proofs = std::mem::take(&mut self.proofs).into_iter().filter_map(|(k, t)| {
            let w: Vec<&str> = k.split_whitespace().collect();
            if w[0] == "loop" { let n: usize = w[1].parse().ok()?; let n = m.get(&n)?; Some((format!("loop {n} {}", w[2..].join(" ")), names(&t))) } else { Some((k.clone(), names(&t))) }
        }).collect();
    }
}
#[derive(Debug)]
pub enum Piece { Text(String), Fn(Box<Contract>), Type(String, String), Const(String), Group(String, String, Vec<Contract>) }

fn parse_contract(body: &str) -> Contract {
    let mut c = Contract::default();
    let mut lines = body.lines();
    c.id = lines.next().unwrap().trim().to_string();
    c.ret = "r".into();
    let mut key = String::new();
    let mut buf = String::new();
    let mut flush = |c: &mut Contract, key: &str, buf: &str| {
        let mut it = key.split_whitespace();
        let k = it.next().unwrap_or("");
        let rest: Vec<&str> = it.collect();
        match k {
            "" => {}
            "ret" => c.ret = rest.join(" "),
            "attr" => c.attr = format!("{} {}", rest.join(" "), buf),
            "name" => c.name = Some(rest.join(" ")),
            "header" => c.header = Some(format!("{} {}", rest.join(" "), buf)),
            "generics" => c.generics = Some(rest.join(" ")),
            "params" => c.params = rest.iter().map(|s| s.trim_matches(',').to_string()).collect(),
            "locals" => c.locals = rest.iter().map(|s| s.trim_matches(',').to_string()).collect(),
            "spec" => c.spec = buf.to_string(),
            "extra" => c.extra = buf.to_string(),
            "type" => c.sig.push((rest[0].into(), format!("{} {}", rest[1..].join(" "), buf).trim().to_string())),
            "loop" => {
                let n: usize = rest[0].parse().unwrap();
                let l = c.loops.entry(n).or_default();
                match *rest.get(1).unwrap_or(&"inv") {
                    "inv" => l.inv = buf.into(), "xinv" => l.xinv = buf.into(),
                    "ens" => l.ens = buf.into(), "dec" => l.dec = buf.into(),
                    "noauto" => l.noauto = true,
                    "attr" => l.attr = buf.into(),
                    x => panic!("loop key {x} in {}", c.id),
                }
            }
            "proof" => { c.proofs.insert(rest.join(" "), buf.to_string()); }
            x => panic!("unknown section {x} in {}", c.id),
        }
    };
    const KEYS: &[&str] = &["ret", "attr", "name", "header", "generics", "params", "locals", "spec", "extra", "type", "loop", "proof"];
    for l in lines {
        let head = l.split_whitespace().next().unwrap_or("");
        if !l.starts_with(' ') && !l.starts_with('\t') && KEYS.contains(&head) {
            flush(&mut c, &key, &buf);
            if let Some((k, rest)) = l.split_once(" :: ") { key = k.to_string(); buf = format!("{rest}\n"); }
            else { key = l.to_string(); buf.clear(); }
        } else {
            buf.push_str(l);
            buf.push('\n');
        }
    }
    flush(&mut c, &key, &buf);
    c
}

pub fn parse(src: &str) -> Vec<Piece> {
    let mut out = Vec::new();
    let mut rest = src;
    let mut group: Option<(String, String, Vec<Contract>)> = None;
    while let Some(i) = rest.find("/*@") {
        let t = &rest[..i];
        if let Some(g) = &mut group { if !t.trim().is_empty() { g.1.push_str(t); } } else { out.push(Piece::Text(t.to_string())); }
        let j = rest[i..].find("@*/").expect("unterminated /*@") + i;
        let body = &rest[i + 3..j];
        rest = &rest[j + 3..];
        if let Some(b) = body.strip_prefix("fn ") {
            let mut c = parse_contract(b);
            if let Some(g) = &mut group { c.in_group = true; g.2.push(c); } else { out.push(Piece::Fn(Box::new(c))); }
        } else if let Some(b) = body.strip_prefix("type ") {
            let mut it = b.trim().splitn(2, char::is_whitespace);
            out.push(Piece::Type(it.next().unwrap().to_string(), it.next().unwrap_or("").to_string()));
        } else if let Some(b) = body.strip_prefix("const ") { out.push(Piece::Const(b.trim().to_string())); }
        else if let Some(b) = body.strip_prefix("impl ") { group = Some((b.trim().to_string(), String::new(), vec![])); }
        else if body.starts_with("endimpl") { let g = group.take().unwrap(); out.push(Piece::Group(g.0, g.1, g.2)); }
        else { panic!("unknown block {body}") }
    }
    out.push(Piece::Text(rest.to_string()));
    out
}
