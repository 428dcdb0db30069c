//! vextract <template> <out.rs> <out.json> [--demote ID]... [--repo DIR]
mod desugar;
mod flow;
mod index; mod lower; mod print; mod reg;
use index::*; use lower::*; use reg::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v { if p.is_dir() { let n = p.file_name().unwrap().to_string_lossy().to_string(); if n != "tests" && n != "fixtures" && n != "target" { walk(&p, out); } } else if p.extension().map(|e| e == "rs").unwrap_or(false) { out.push(p); } }
}

struct Out { s: String }
impl Out { fn line(&self) -> usize { self.s.matches('\n').count() + 1 } }

fn rename_tokens(s: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() { return s.to_string(); }
    let mut out = String::new(); let mut cur = String::new();
    let mut flush = |cur: &mut String, out: &mut String| { if !cur.is_empty() { out.push_str(map.get(cur.as_str()).map(|x| x.as_str()).unwrap_or(cur)); cur.clear(); } };
    for c in s.chars() { if c.is_alphanumeric() || c == '_' { cur.push(c); } else { flush(&mut cur, &mut out); out.push(c); } }
    flush(&mut cur, &mut out);
    out
}

/// longest common subsequence: which loop of `b` each loop of `a` is
fn align(a: &[String], b: &[String]) -> BTreeMap<usize, usize> {
    let (n, m) = (a.len(), b.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }; } }
    let (mut i, mut j, mut r) = (0, 0, BTreeMap::new());
    while i < n && j < m { if a[i] == b[j] { r.insert(i, j); i += 1; j += 1; } else if t[i + 1][j] >= t[i][j + 1] { i += 1; } else { j += 1; } }
    r
}

struct Gen<'a> { ix: &'a SrcIndex, demote: BTreeSet<String>, base: BTreeMap<String, String>, newbase: BTreeMap<String, String>, fns: Vec<serde_json::Value>, known: BTreeSet<String>, shape: BTreeMap<String, serde_json::Value> }

impl<'a> Gen<'a> {
    /// text of one function (without impl header), and its metadata
    fn func(&mut self, c0: &Contract, out: &mut Out, indent_impl: bool) {
        let ix = self.ix;
        let mut meta = serde_json::json!({ "id": c0.id, "key": c0.id });
        let mut c = c0.clone();
        // alternatives: the first one the source has (an override before the default body)
        if c.id.contains(" | ") { let alts: Vec<String> = c.id.split(" | ").map(|x| x.trim().to_string()).collect(); c.id = alts.iter().find(|a| ix.fns.contains_key(*a)).cloned().unwrap_or_else(|| alts.last().unwrap().clone()); meta["alt"] = c0.id.clone().into(); meta["id"] = c.id.clone().into(); }
        let mut status = "verified".to_string();
        let mut reason = String::new();
        let name = c.name.clone().unwrap_or_else(|| { let n = c.id.rsplit("::").next().unwrap().to_string(); renamed(&n).map(|i| i.to_string()).unwrap_or(n) });
        let mut sigtxt = String::new(); let mut body = String::new(); let mut header = String::new();
        let mut loc = String::new(); let mut kin = String::new();
        if c.locals.is_empty() { if let Some(l) = self.base.get(&c0.id).and_then(|b| b.split('\u{1}').nth(2)) { c.locals = l.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(); } }
        match ix.fns.get(&c.id) {
            None => { status = "lost".into(); reason = "function not found in the source".into(); }
            Some(f) => {
                // first pass: find local names, loops
                let mut lo = Lower::new(ix, &c, &self.known);
                let _ = lo.func(f);
                let shape = serde_json::json!({ "loops": lo.loops, "locals": lo.locals, "inlined": lo.inlined.iter().collect::<Vec<_>>() });
                let locals = lo.locals.clone();
                let nloops = lo.loops;
                // the loops the annotations are written for, in the present text
                let kinds: Vec<String> = lo.kinds.iter().map(|(d, k)| format!("{d}{k}")).collect();
                if let Some(b) = self.base.get(&c0.id).and_then(|b| b.split('\u{1}').nth(3).map(|x| x.to_string())) {
                    let b: Vec<String> = b.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                    if b.len() != kinds.len() && !b.is_empty() { c.renumber(&align(&b, &kinds)); }
                }
                kin = kinds.join(",");
                // map names of the baseline's locals to the present ones
                if !c.locals.is_empty() && c.locals != locals && c.locals.len() == locals.len() {
                    let mut m: BTreeMap<String, String> = c.locals.iter().cloned().zip(locals.iter().cloned()).filter(|(a, b)| a != b).collect();
                    // conflicting renames make the anchors unusable
                    for (a, b) in c.locals.iter().zip(locals.iter()) { if let Some(x) = m.get(a) { if x != b { m.clear(); break; } } }
                    for l in c.loops.values_mut() { l.inv = rename_tokens(&l.inv, &m); l.xinv = rename_tokens(&l.xinv, &m); l.ens = rename_tokens(&l.ens, &m); l.dec = rename_tokens(&l.dec, &m); }
                    c.proofs = c.proofs.iter().map(|(k, v)| (rename_tokens(k, &m), rename_tokens(v, &m))).collect();
                }
                meta["locals_match"] = (c.locals.is_empty() || c.locals == locals || c.locals.len() == locals.len()).into();
                meta["loops"] = nloops.into(); meta["nlocals"] = locals.len().into();
                loc = locals.join(",");
                meta["file"] = f.file.clone().into(); meta["src_line"] = f.line.into(); meta["src_end"] = f.end_line.into();
                self.shape.insert(c0.id.clone(), shape);
                let mut lo = Lower::new(ix, &c, &self.known);
                let (params, rt, b) = lo.func(f);
                let g = match &c.generics { Some(g) => g.clone(), None => { let g = lo.generics(&f.sig.generics); let (a, _, w) = (g.params.to_token_stream(), 0, g.where_clause.to_token_stream()); if a.is_empty() { format!("\u{1}{w}") } else { format!("<{a}>\u{1}{w}") } } };
                let (gp, gw) = g.split_once('\u{1}').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((g.clone(), String::new()));
                let rts = rt.map(|t| format!("-> ({}: {})", c.ret, t.to_token_stream())).unwrap_or_default();
                sigtxt = format!("fn {name}{gp}({params}) {rts} {gw}");
                header = match &c.header { Some(h) => h.clone(), None => match &f.self_ty {
                    None => String::new(),
                    Some(t) => { let g = lo.generics(&f.impl_generics); let t = lo.ty(t); let p = &g.params; let w = &g.where_clause; if p.is_empty() { format!("impl {} {}", t.to_token_stream(), w.to_token_stream()) } else { format!("impl<{}> {} {}", p.to_token_stream(), t.to_token_stream(), w.to_token_stream()) } } } };
                meta["inlined"] = lo.inlined.iter().cloned().collect::<Vec<_>>().into();
                meta["calls"] = lo.calls.iter().cloned().collect::<Vec<_>>().into();
                if f.block.is_none() { status = "nobody".into(); reason = "no body".into(); }
                if let Some(e) = lo.err { status = "unsupported".into(); reason = e; }
                body = print::print(b);
            }
        }
        if self.demote.contains(&c0.id) || self.demote.contains(&c.id) { status = "demoted".into(); }
        self.newbase.insert(c0.id.clone(), format!("{header}\u{1}{sigtxt}\u{1}{loc}\u{1}{kin}"));
        if status == "lost" || status == "demoted" || status == "unsupported" {
            if let Some(b) = self.base.get(&c0.id) { let v: Vec<&str> = b.split('\u{1}').collect(); if v.len() > 1 { header = v[0].into(); sigtxt = v[1].into(); } }
        }
        if sigtxt.is_empty() { meta["status"] = status.into(); meta["reason"] = reason.into(); self.fns.push(meta); return; }
        if !indent_impl && !header.is_empty() { out.s.push_str(&format!("{header} {{\n")); if !c.extra.trim().is_empty() { out.s.push_str(&c.extra); out.s.push('\n'); } }
        let is_trait = header.contains(" for ") || c.in_group;
        let vis = if is_trait { "" } else { "pub " };
        out.s.push_str(&format!("// @@ {}\n", c.id));
        let l0 = out.line();
        if status != "verified" { out.s.push_str("#[verifier::external_body]\n"); } 
        if !c.attr.trim().is_empty() { out.s.push_str(&c.attr); out.s.push('\n'); }
        out.s.push_str(&format!("{vis}{sigtxt}\n"));
        let sl = out.line();
        out.s.push_str(&c.spec); out.s.push('\n');
        let bl = out.line();
        if status == "verified" { out.s.push_str(&body); } else { out.s.push_str("{ unimplemented!() }"); }
        out.s.push('\n');
        meta["lines"] = serde_json::json!([l0, sl, bl, out.line()]);
        if !indent_impl && !header.is_empty() { out.s.push_str("}\n"); }
        meta["status"] = status.into(); meta["reason"] = reason.into();
        self.fns.push(meta);
    }
    fn typ(&mut self, name: &str, opts: &str, out: &mut Out) {
        let c = Contract::default();
        let mut lo = Lower::new(self.ix, &c, &self.known);
        let opts: Vec<&str> = opts.split_whitespace().collect();
        if let Some((s, _)) = self.ix.structs.get(name) {
            let g = lo.generics(&s.generics);
            let (p, w) = (&g.params, &g.where_clause);
            let gp = if p.is_empty() { quote!() } else { quote!(<#p>) };
            let fs: Vec<_> = s.fields.iter().map(|f| { let t = lo.ty(&f.ty); match &f.ident { Some(i) => quote!(pub #i : #t), None => quote!(pub #t) } }).collect();
            let id = &s.ident;
            let ts = match &s.fields { Fields::Named(_) => quote!(pub struct #id #gp #w { #(#fs),* }), Fields::Unnamed(_) => quote!(pub struct #id #gp (#(#fs),*) #w ;), Fields::Unit => quote!(pub struct #id #gp ;) };
            for o in &opts { if let Some(a) = o.strip_prefix('@') { out.s.push_str(&format!("#[{}]\n", a)); } }
            out.s.push_str(&print::print(ts)); out.s.push('\n');
            self.derives(name, &s.attrs, &g, &opts, out);
        } else if let Some((s, _)) = self.ix.enums.get(name) {
            let g = lo.generics(&s.generics);
            let (p, w) = (&g.params, &g.where_clause);
            let gp = if p.is_empty() { quote!() } else { quote!(<#p>) };
            let vs: Vec<_> = s.variants.iter().map(|v| { let id = &v.ident; match &v.fields {
                Fields::Unit => quote!(#id),
                Fields::Unnamed(f) => { let t: Vec<_> = f.unnamed.iter().map(|f| lo.ty(&f.ty)).collect(); quote!(#id(#(#t),*)) }
                Fields::Named(f) => { let t: Vec<_> = f.named.iter().map(|f| { let t = lo.ty(&f.ty); let i = &f.ident; quote!(#i : #t) }).collect(); quote!(#id { #(#t),* }) } } }).collect();
            let id = &s.ident;
            out.s.push_str(&print::print(quote!(pub enum #id #gp #w { #(#vs),* }))); out.s.push('\n');
            self.derives(name, &s.attrs, &g, &opts, out);
        } else if let Some(t) = self.ix.types.get(name) {
            let ty = lo.ty(&t.ty); let id = &t.ident; let g = &t.generics;
            out.s.push_str(&print::print(quote!(pub type #id #g = #ty;))); out.s.push('\n');
        } else { out.s.push_str(&format!("// LOST TYPE {name}\n")); }
    }
    fn derives(&mut self, name: &str, attrs: &[Attribute], g: &Generics, opts: &[&str], out: &mut Out) {
        let d: String = attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.meta.to_token_stream().to_string()).collect();
        let (p, w) = (&g.params, &g.where_clause);
        let names: Vec<_> = g.type_params().map(|t| t.ident.clone()).collect();
        let lts: Vec<_> = g.lifetimes().map(|l| l.lifetime.clone()).collect();
        let gp = if p.is_empty() { String::new() } else { format!("<{}>", p.to_token_stream()) };
        let ga = if p.is_empty() { String::new() } else { format!("<{}>", quote!(#(#lts,)* #(#names),*)) };
        let w = w.to_token_stream();
        if d.contains("Clone") && !opts.contains(&"noclone") { out.s.push_str(&format!("impl{gp} VClone for {name}{ga} {w} {{ #[verifier::external_body] fn v_clone(&self) -> (r: Self) {{ unimplemented!() }} }}\n")); }
        if d.contains("PartialEq") && !opts.contains(&"noeq") { out.s.push_str(&format!("impl{gp} VEq<{name}{ga}> for {name}{ga} {w} {{ open spec fn s_eq(&self, o: &{name}{ga}) -> bool {{ *self == *o }} #[verifier::external_body] fn v_eq(&self, o: &{name}{ga}) -> (r: bool) {{ unimplemented!() }} }}\n")); }
    }
    fn konst(&mut self, name: &str, out: &mut Out) {
        let c = Contract::default();
        let mut lo = Lower::new(self.ix, &c, &self.known);
        match self.ix.consts.get(name) {
            Some(k) => { let t = lo.ty(&k.ty); let e = &k.expr; let id = &k.ident; 
                match &*k.expr {
                    Expr::Reference(_) => { // byte slice: exec const with its value as postcondition
                        if let Expr::Reference(r) = &*k.expr { if let Expr::Array(a) = &*r.expr {
                            let n = a.elems.len(); let es: Vec<_> = a.elems.iter().collect(); let ix: Vec<_> = (0..n).map(|i| proc_macro2::Literal::usize_unsuffixed(i)).collect();
                            let _ = &ix;
                            let fnm = quote::format_ident!("s_{}", name.to_lowercase());
                            out.s.push_str(&print::print(quote!(pub open spec fn #fnm() -> Seq<u8> { seq![#(#es as u8),*] } #[verifier::external_body] pub exec const #id : &'static [u8] ensures #id@ == #fnm() { #e }))); out.s.push('\n'); return;
                        } }
                    }
                    Expr::Struct(_) => { out.s.push_str(&print::print(quote!(pub exec const #id : #t ensures true { #e }))); out.s.push('\n'); return; }
                    Expr::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
                        let fnm = quote::format_ident!("s_{}", name.to_lowercase());
                        out.s.push_str(&print::print(quote!(pub open spec fn #fnm() -> Seq<char> { #e@ } pub exec const #id : &'static str ensures #id@ == #e@ { #e }))); out.s.push('\n'); return;
                    }
                    _ => {}
                }
                out.s.push_str(&print::print(quote!(pub const #id : #t = #e;))); out.s.push('\n'); }
            None => out.s.push_str(&format!("// LOST CONST {name}\n")),
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = "/repo".to_string(); let mut demote = BTreeSet::new(); let mut pos = vec![]; let mut basef = String::new(); let mut wbase = String::new();
    let mut i = 1;
    while i < args.len() { match args[i].as_str() { "--demote" => { demote.insert(args[i + 1].clone()); i += 2; } "--repo" => { repo = args[i + 1].clone(); i += 2; } "--base" => { basef = args[i + 1].clone(); i += 2; } "--write-base" => { wbase = args[i + 1].clone(); i += 2; } "--list" => { pos.push("--list".into()); i += 1; } _ => { pos.push(args[i].clone()); i += 1; } } }
    let mut ix = SrcIndex::default();
    let mut files = vec![];
    for d in ["ucan/src", "ucan-key-support/src"] { walk(&std::path::Path::new(&repo).join(d), &mut files); }
    let mut bad = vec![];
    for f in &files { let rel = f.strip_prefix(&repo).unwrap().to_string_lossy().trim_start_matches('/').to_string(); if rel.ends_with("web_crypto.rs") { continue; } let src = std::fs::read_to_string(f).unwrap(); if let Err(e) = ix.add_file(&rel, &src) { bad.push(format!("{rel}: {e}")); } }
    if pos.first().map(|s| s == "--list").unwrap_or(false) { for (k, f) in &ix.fns { println!("{}\t{}:{}", k, f.file, f.line); } return; }
    let tpl = std::fs::read_to_string(&pos[0]).expect("template");
    // includes
    let dir = std::path::Path::new(&pos[0]).parent().unwrap().to_path_buf();
    let mut full = String::new();
    for l in tpl.lines() { if let Some(f) = l.strip_prefix("//@include ") { full.push_str(&std::fs::read_to_string(dir.join(f.trim())).expect("include")); } else { full.push_str(l); } full.push('\n'); }
    let pieces = reg::parse(&full);
    let mut known = BTreeSet::new();
    for p in &pieces { match p { Piece::Fn(c) => { for x in c.id.split(" | ") { known.insert(x.trim().to_string()); } } Piece::Group(_, _, v) => for c in v { for x in c.id.split(" | ") { known.insert(x.trim().to_string()); } }, _ => {} } }
    // names mentioned as supplied by the template itself
    for l in full.lines() { if let Some(x) = l.trim().strip_prefix("//@known ") { for n in x.split_whitespace() { known.insert(n.to_string()); } } }
    let base: BTreeMap<String, String> = if basef.is_empty() { Default::default() } else { std::fs::read_to_string(&basef).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default() };
    let mut g = Gen { ix: &ix, demote, base, newbase: Default::default(), fns: vec![], known, shape: Default::default() };
    let mut out = Out { s: String::new() };
    for p in &pieces { match p {
        Piece::Text(t) => out.s.push_str(t),
        Piece::Type(n, o) => g.typ(n, o, &mut out),
        Piece::Const(n) => g.konst(n, &mut out),
        Piece::Fn(c) => g.func(c, &mut out, false),
        Piece::Group(h, extra, v) => { out.s.push_str(&format!("{h} {{\n{extra}\n")); for c in v { g.func(c, &mut out, true); } out.s.push_str("}\n"); }
    } }
    std::fs::write(&pos[1], &out.s).unwrap();
    let j = serde_json::json!({ "fns": g.fns, "parse_errors": bad, "shape": g.shape, "index": ix.fns.keys().collect::<Vec<_>>() });
    std::fs::write(&pos[2], serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if !wbase.is_empty() { std::fs::write(&wbase, serde_json::to_string_pretty(&g.newbase).unwrap()).unwrap(); }
}
