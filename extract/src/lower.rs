//! Mechanical lowering of repository functions into the subset Verus accepts.
use crate::flow::{has_flow, only_errors, Flow};
use crate::index::*;
use crate::reg::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::*;

/// methods (and associated functions) of std types that are replaced by specified shims
pub const RENAME: &[&str] = &[
    "clone", "to_owned", "to_string", "iter", "into_iter", "next", "nth", "get", "as_bytes", "starts_with", "ends_with",
    "strip_prefix", "strip_suffix", "split", "splitn", "rsplit", "is_empty", "len", "contains", "concat", "join", "to_vec", "extend", "extend_from_slice", "into",
    "try_into", "try_from", "from", "from_str", "as_ref", "from_iter", "saturating_add", "saturating_sub", "checked_add", "checked_sub",
    "enumerate", "take", "skip", "rev", "zip", "chain", "cloned", "copied", "keys", "values", "fmt", "trim", "to_lowercase", "as_slice", "append",
    "eq", "split_once", "rsplit_once", "first", "last", "or_default", "remove", "retain", "sort", "dedup", "truncate", "push_str", "push_char", "wrapping_add",
    "flatten", "into_bytes", "to_uppercase", "eq_ignore_ascii_case", "min", "max", "cmp", "partial_cmp", "swap", "split_at", "chunks", "windows",
    "chars", "bytes", "char_indices", "find", "rfind", "as_deref", "into_keys", "into_values", "is_subset", "is_superset", "union", "split_first", "split_last", "to_ascii_lowercase", "to_ascii_uppercase", "trim_start", "trim_end",
    "trim_start_matches", "trim_end_matches", "trim_matches", "replace", "reverse", "wrapping_sub", "default",
];
pub fn renamed(n: &str) -> Option<Ident> { if RENAME.contains(&n) { Some(format_ident!("v_{}", n)) } else { None } }

pub enum L { E(Expr, T), C(Chain) }
pub struct Chain { src: Expr, item: T, ads: Vec<(Ad, Expr)> }
#[derive(Clone, Copy, PartialEq)]
enum Ad { Map, Filter, FilterMap, MapWhile, TakeWhile, FlatMap }
enum Sink { Collect, TryCollect(bool), Body(Pat, Block), Fold(Expr, ExprClosure), Reduce(ExprClosure), Any(Expr), All(Expr), Find(Expr), FindMap(Expr), Count, Position(Expr) }

pub struct Lower<'a> {
    pub ix: &'a SrcIndex,
    pub c: &'a Contract,
    scopes: Vec<HashMap<String, T>>,
    alias: HashMap<usize, Vec<(String, String)>>,
    out_hint: Option<String>,
    auto_xinv: TokenStream,
    /// directly under `?` in a function that may return here
    try_ctx: bool,
    pub loops: usize,
    pub kinds: Vec<(usize, &'static str)>,
    field_hints: HashMap<String, Type>,
    uniq: usize,
    ret: T,
    pub locals: Vec<String>,
    stack: Vec<(Option<String>, usize)>,
    pub err: Option<String>,
    self_this: bool,
    expect: Option<T>,
    fn_self: T,
    mut_self: bool,
    pub calls: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub known: &'a BTreeSet<String>,
    depth: usize,
    ycount: HashMap<usize, usize>,
    /// exits of a helper called here leave the function as they would leave the helper: 1 for errors, 2 for all
    exit_ctx: u8,
    tail_block: bool,
    funs: Vec<HashMap<String, (ExprClosure, HashMap<String, usize>)>>,
    bound: HashMap<String, usize>,
    vret: Vec<&'static str>,
}

fn toks(s: &str) -> TokenStream { s.parse().unwrap_or_else(|e| panic!("cannot tokenize {s:?}: {e}")) }
fn ex(ts: TokenStream) -> Expr { parse2(ts.clone()).unwrap_or(Expr::Verbatim(ts)) }
macro_rules! pq { ($($t:tt)*) => { ex(quote!($($t)*)) } }
fn is_int_lit(e: &Expr) -> bool { match e { Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Byte(_) | Lit::Bool(_)), Expr::Paren(p) => is_int_lit(&p.expr), Expr::Unary(u) => is_int_lit(&u.expr), _ => false } }
impl<'a> Lower<'a> {
    pub fn new(ix: &'a SrcIndex, c: &'a Contract, known: &'a BTreeSet<String>) -> Self {
        Lower { ix, c, scopes: vec![HashMap::new()], loops: 0, kinds: vec![], field_hints: HashMap::new(), uniq: 0, ret: T::Unk, locals: vec![], stack: vec![], err: None, self_this: false, expect: None, fn_self: T::Unk, mut_self: false, calls: BTreeSet::new(), inlined: BTreeSet::new(), known, depth: 0, ycount: HashMap::new(), exit_ctx: 0, tail_block: false, funs: vec![HashMap::new()], bound: HashMap::new(), vret: vec![], alias: HashMap::new(), out_hint: None, auto_xinv: TokenStream::new(), try_ctx: false }
    }
    fn fail(&mut self, m: impl Into<String>) { if self.err.is_none() { self.err = Some(m.into()); } }
    fn new_loop(&mut self, kind: &'static str) -> usize { let k = self.loops; self.loops += 1; self.kinds.push((self.stack.len(), kind)); k }
    fn fresh_y(&mut self, k: usize) -> Ident { let c = self.ycount.entry(k).or_insert(0); *c += 1; if *c == 1 { format_ident!("__y{}", k) } else { format_ident!("__y{}_{}", k, *c) } }
    fn fresh(&mut self, p: &str) -> Ident { self.uniq += 1; format_ident!("__{}{}", p, self.uniq) }
    fn bind(&mut self, n: &str, t: T) { *self.bound.entry(n.to_string()).or_insert(0) += 1; self.scopes.last_mut().unwrap().insert(n.to_string(), t); }
    fn look(&self, n: &str) -> Option<T> { self.scopes.iter().rev().find_map(|s| s.get(n).cloned()) }

    // ---------- types ----------
    pub fn ty(&mut self, t: &Type) -> Type {
        match t {
            Type::Path(p) => {
                let mut p = p.clone();
                if let Some(q) = &mut p.qself { *q.ty = self.ty(&q.ty); }
                let full = p.path.to_token_stream().to_string().replace(' ', "");
                if full == "std::fmt::Result" || full == "fmt::Result" { return parse_quote!(Result<(), Error>); }
                if matches!(full.as_str(), "Self::Error" | "Self::Err" | "anyhow::Error" | "std::fmt::Error" | "fmt::Error") { return parse_quote!(Error); }
                if matches!(p.path.segments[0].ident.to_string().as_str(), "std" | "core" | "alloc" | "crate" | "super") || p.path.segments.len() > 1 && p.path.segments[0].ident.to_string() == "fmt" {
                    let last = p.path.segments.last().unwrap().clone();
                    p.path = Path { leading_colon: None, segments: std::iter::once(last).collect() };
                }
                let n = p.path.segments.len();
                for (i, s) in p.path.segments.iter_mut().enumerate() {
                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                        for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { *t = self.ty(t); } }
                    }
                    if i + 1 == n {
                        let nm = s.ident.to_string();
                        match nm.as_str() {
                            "BTreeMap" | "HashMap" | "Map" => s.ident = format_ident!("VMap"),
                            "BTreeSet" | "HashSet" => s.ident = format_ident!("VSet"),
                            "Formatter" => s.arguments = PathArguments::None,
                            "Result" => {
                                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                                    let first = a.args.first().cloned();
                                    a.args.clear();
                                    if let Some(f) = first { a.args.push(f); }
                                    a.args.push(parse_quote!(Error));
                                }
                            }
                            _ => {}
                        }
                        if let Some(al) = self.ix.types.get(&nm) {
                            if al.ty.to_token_stream().to_string().contains("FlatMap") { return parse_quote!(VIter<Capability>); }
                        }
                    }
                }
                Type::Path(p)
            }
            Type::Reference(r) => { let mut r = r.clone(); *r.elem = self.ty(&r.elem); Type::Reference(r) }
            Type::Tuple(x) => { let mut x = x.clone(); for e in x.elems.iter_mut() { *e = self.ty(e); } Type::Tuple(x) }
            Type::Slice(x) => { let mut x = x.clone(); *x.elem = self.ty(&x.elem); Type::Slice(x) }
            Type::Array(x) => { let mut x = x.clone(); *x.elem = self.ty(&x.elem); Type::Array(x) }
            Type::Paren(x) => self.ty(&x.elem),
            Type::TraitObject(x) => { let mut x = x.clone(); x.bounds = x.bounds.iter().filter(|b| !matches!(b, TypeParamBound::Lifetime(_))).cloned().collect(); Type::TraitObject(x) }
            Type::BareFn(_) => parse_quote!(VFnPtr),
            Type::ImplTrait(_) => { self.fail("impl Trait type"); t.clone() }
            t => t.clone(),
        }
    }
    pub fn bound(&mut self, b: &TypeParamBound) -> Option<TypeParamBound> {
        match b {
            TypeParamBound::Trait(t) => {
                let mut t = t.clone();
                let last = t.path.segments.last_mut().unwrap();
                let n = last.ident.to_string();
                match n.as_str() {
                    "Clone" => last.ident = format_ident!("VClone"),
                    "PartialEq" => last.ident = format_ident!("VEq"),
                    "Ord" | "PartialOrd" => last.ident = format_ident!("VOrd"),
                    "ToString" => last.ident = format_ident!("VToString"),
                    "Into" => last.ident = format_ident!("VInto"),
                    "From" => last.ident = format_ident!("VFrom"),
                    "TryFrom" => last.ident = format_ident!("VTryFrom"),
                    "AsRef" => { return Some(parse_quote!(VAsBytes)); }
                    "Debug" | "Send" | "Sync" | "Display" | "UcanStoreConditionalSend" => return None,
                    _ => {}
                }
                if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                    for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { *t = self.ty(t); } }
                }
                let last = t.path.segments.last().unwrap().clone();
                t.path = Path { leading_colon: None, segments: std::iter::once(last).collect() };
                Some(TypeParamBound::Trait(t))
            }
            x => Some(x.clone()),
        }
    }
    pub fn generics(&mut self, g: &Generics) -> Generics {
        let mut g = g.clone();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p { t.bounds = t.bounds.clone().iter().filter_map(|b| self.bound(b)).collect(); t.default = None; t.eq_token = None; t.attrs.clear(); }
        }
        if let Some(w) = &mut g.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p { t.bounded_ty = self.ty(&t.bounded_ty.clone()); t.bounds = t.bounds.clone().iter().filter_map(|b| self.bound(b)).collect(); }
            }
        }
        g
    }

    // ---------- functions ----------
    /// returns (params text, return type, lowered body)
    pub fn func(&mut self, f: &FnInfo) -> (TokenStream, Option<Type>, TokenStream) {
        self.ret = self.ix.ret(f);
        self.fn_self = f.self_ty.as_ref().map(|t| self.ix.ty(t)).unwrap_or(T::Unk);
        let mut params: Vec<TokenStream> = vec![];
        let mut prelude: Vec<Stmt> = vec![];
        let cn = self.c.params.clone();
        let mut k = 0;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        params.push(quote!(self));
                        prelude.push(parse_quote!(let mut this = self;));
                        self.self_this = true;
                    } else {
                        let mut r = r.clone(); r.attrs.clear();
                        if r.reference.is_some() { self.mut_self = r.mutability.is_some(); let m = &r.mutability; let lt = r.reference.as_ref().and_then(|x| x.1.clone()); params.push(quote!(& #lt #m self)); } else { params.push(quote!(self)); }
                    }
                    let st = self.fn_self.clone();
                    self.bind("self", st);
                }
                FnArg::Typed(p) => {
                    let t = self.ty(&p.ty);
                    let mut tt = t.to_token_stream();
                    let it = self.ix.ty(&p.ty);
                    let srcname = match &*p.pat { Pat::Ident(i) if i.subpat.is_none() => Some((i.ident.to_string(), i.mutability.is_some())), _ => None };
                    let canon = cn.get(k).cloned();
                    let pname = match (&canon, &srcname) { (Some(c), _) => format_ident!("{}", c), (None, Some((s, false))) => format_ident!("{}", s), (None, _) => format_ident!("__p{}", k) };
                    for (o, ty) in &self.c.sig { if *o == pname.to_string() { tt = toks(ty); } }
                    params.push(quote!(#pname : #tt));
                    match &srcname {
                        Some((s, m)) => {
                            self.bind(s, it);
                            let id = format_ident!("{}", s);
                            if *m { prelude.push(parse_quote!(let mut #id = #pname;)); }
                            else if *s != pname.to_string() { prelude.push(parse_quote!(let #id = #pname;)); }
                        }
                        None => {
                            let mut g = vec![];
                            let pat = self.pat((*p.pat).clone(), &mut g, &it);
                            prelude.push(parse_quote!(let #pat = #pname;));
                        }
                    }
                    k += 1;
                }
            }
        }
        let mut rt = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(self.ty(t)) };
        for (o, ty) in &self.c.sig { if o == "return" { rt = Some(parse_str(ty).expect("return type override")); } }
        if let Some(b) = &f.block { self.field_hints = field_hints(b, self.ix, self.fn_self.name()); }
        let body = match &f.block {
            Some(b) => { let b = self.fn_body(b.clone(), prelude); b }
            None => quote!({}),
        };
        (quote!(#(#params),*), rt, body)
    }
    /// a loop's annotations, with the accumulator's name in this text
    fn named(&self, k: usize, t: &str) -> String { let mut t = t.to_string(); for (a, b) in self.alias.get(&k).into_iter().flatten() { t = sub_word(&t, a, b); } t }
    fn loop_text(&self, k: usize) -> String {
        let mut t = String::new();
        if let Some(l) = self.c.loops.get(&k) { for x in [&l.inv, &l.xinv, &l.ens, &l.dec] { t.push_str(x); t.push(' '); } }
        for (n, p) in &self.c.proofs { if n.starts_with(&format!("loop {k} ")) { t.push_str(p); t.push(' '); } }
        t
    }
    fn proof(&self, key: &str) -> TokenStream {
        match self.c.proofs.get(key) { Some(p) => { let p = match key.strip_prefix("loop ").and_then(|r| r.split(' ').next()).and_then(|n| n.parse().ok()) { Some(k) => self.named(k, p), None => p.clone() }; let p = &p; let t = toks(p); if p.contains("let ghost") || p.contains("proof {") || p.contains("let tracked") { t } else { quote!(proof { #t }) } } None => quote!() }
    }
    fn fn_body(&mut self, b: Block, prelude: Vec<Stmt>) -> TokenStream {
        let start = self.proof("start");
        let ret = self.proof("ret");
        self.expect = Some(self.ret.clone());
        self.tail_block = true;
        let mut b = b;
        crate::desugar::body(&mut b, self.ret == T::Bool && ret.is_empty());
        let (blk, _) = self.block(b);
        let mut stmts = blk.stmts;
        let mut lits = BTreeSet::new();
        for st in &stmts { str_lits(st.to_token_stream(), self.ix, &mut lits); }
        let lits: Vec<proc_macro2::Literal> = lits.into_iter().map(|l| l.parse().unwrap()).collect();
        let start = if lits.is_empty() { start } else { quote!(proof { #(reveal_strlit(#lits);)* } #start) };
        if ret.is_empty() {
            quote!({ #(#prelude)* #start #(#stmts)* })
        } else {
            match stmts.pop() {
                Some(Stmt::Expr(e, None)) => quote!({ #(#prelude)* #start #(#stmts)* let __ret = #e ; #ret __ret }),
                Some(s) => quote!({ #(#prelude)* #start #(#stmts)* #s #ret }),
                None => quote!({ #(#prelude)* #start #ret }),
            }
        }
    }
    pub fn block(&mut self, b: Block) -> (Block, T) {
        self.scopes.push(HashMap::new());
        self.funs.push(HashMap::new());
        let mut out: Vec<Stmt> = vec![];
        let mut t = T::Unit;
        let n = b.stmts.len();
        let expect = self.expect.take();
        let tail = std::mem::take(&mut self.tail_block);
        for (i, s) in b.stmts.into_iter().enumerate() {
            match s {
                Stmt::Local(l) => self.local(l, &mut out),
                Stmt::Expr(e, semi) => {
                    let last = i + 1 == n && semi.is_none();
                    if last { self.expect = expect.clone(); if tail && call_like(&e) { self.exit_ctx = 2; } }
                    let (e, ty) = self.e(e);
                    self.expect = None; self.exit_ctx = 0;
                    if last { t = ty; out.push(Stmt::Expr(e, None)); }
                    else { out.push(Stmt::Expr(e, Some(Default::default()))); }
                }
                Stmt::Macro(m) => {
                    let last = i + 1 == n && m.semi_token.is_none();
                    let (e, ty) = self.e(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }));
                    if last { t = ty; out.push(Stmt::Expr(e, None)); } else { out.push(Stmt::Expr(e, Some(Default::default()))); }
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => self.fail("nested item"),
            }
        }
        self.scopes.pop();
        self.funs.pop();
        (Block { brace_token: b.brace_token, stmts: out }, t)
    }
    fn local(&mut self, l: Local, out: &mut Vec<Stmt>) {
        let mut t = T::Unk;
        let (pat, ty) = match l.pat { Pat::Type(pt) => { t = self.ix.ty(&pt.ty); let ty = self.ty(&pt.ty); (*pt.pat, Some(ty)) } p => (p, None) };
        let mut ty = ty;
        if let (None, Pat::Ident(id), Some(LocalInit { expr, .. })) = (&ty, &pat, &l.init) {
            let e = expr.to_token_stream().to_string().replace(' ', "");
            if e == "vec![]" || e.ends_with("::new()") || e.ends_with("::default()") { let owner = if e == "vec![]" { "Vec" } else { e.split("::").next().unwrap() }.to_string(); if let Some(h) = self.field_hints.get(&id.ident.to_string()).filter(|h| matches!(h, Type::Path(p) if p.path.segments.last().unwrap().ident == owner.as_str())).cloned() { t = self.ix.ty(&h); ty = Some(self.ty(&h)); } }
        }
        let mut init = None;
        if let (Pat::Ident(id), Some(LocalInit { expr, diverge: None, .. })) = (&pat, &l.init) {
            if let Expr::Closure(c) = &**expr {
                if c.capture.is_some() || c.asyncness.is_some() { self.fail("move closure value"); }
                let mut ids = HashMap::new();
                idents(c.body.to_token_stream(), &mut |n| { ids.insert(n.clone(), self.bound.get(&n).copied().unwrap_or(0)); });
                let mut own = vec![];
                for p in &c.inputs { pat_names(p, &mut own); }
                body_names(&c.body, &mut own);
                for o in own { ids.remove(&o); }
                let n = id.ident.to_string();
                self.bind(&n, T::Unk);
                self.funs.last_mut().unwrap().insert(n, ((*c).clone(), ids));
                return;
            }
        }
        if let Some(i) = l.init {
            if t != T::Unk { self.expect = Some(t.clone()); }
            let x = match &*i.expr { Expr::Try(t) => &*t.expr, e => e };
            self.out_hint = match (&pat, x) { (Pat::Ident(p), Expr::MethodCall(m)) if m.method == "collect" => Some(p.ident.to_string()), _ => None };
            let (e, et) = self.e(*i.expr);
            self.out_hint = None;
            self.expect = None;
            if t == T::Unk { t = et; }
            let els = i.diverge.map(|(_, d)| self.e(*d).0);
            init = Some((e, els));
        }
        let mut g = vec![];
        let pat = self.pat(pat, &mut g, &t);
        if !g.is_empty() { self.fail("literal pattern in let"); }
        let tyt = ty.map(|t| quote!(: #t)).unwrap_or_default();
        let ts = match init {
            None => quote!(let #pat #tyt ;),
            Some((e, None)) => quote!(let #pat #tyt = #e ;),
            Some((e, Some(d))) => quote!(let #pat #tyt = #e else #d ;),
        };
        out.push(Stmt::Expr(Expr::Verbatim(ts), None));
        let mut names = vec![];
        pat_names(&pat, &mut names);
        for n in names {
            let p = self.proof(&format!("after {n}"));
            if !p.is_empty() { out.push(Stmt::Expr(Expr::Verbatim(p), None)); }
        }
    }

    // ---------- patterns ----------
    fn pat(&mut self, p: Pat, g: &mut Vec<Expr>, t: &T) -> Pat {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.chars().next().unwrap().is_uppercase() && n.len() > 1 && n.to_uppercase() == n {
                    if let Some(c) = self.ix.consts.get(&n) {
                        if self.ix.ty(&c.ty) == T::Int { return Pat::Ident(i); }
                        let v = self.fresh("p"); let id = &i.ident;
                        g.push(pq!(VEq::v_eq(& #v, & #id)));
                        return parse_quote!(#v);
                    }
                    return Pat::Ident(i);
                }
                if n.chars().next().unwrap().is_uppercase() { return Pat::Ident(i); }
                self.bind(&n, t.clone());
                self.locals.push(n);
                Pat::Ident(i)
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Str(_) | Lit::ByteStr(_) => { let v = self.fresh("p"); g.push(parse_quote!(VEq::v_eq(& #v, & #l))); parse_quote!(#v) }
                _ => Pat::Lit(l),
            },
            Pat::Path(_) | Pat::Wild(_) | Pat::Rest(_) | Pat::Range(_) => p,
            Pat::Tuple(mut x) => {
                let n = x.elems.len();
                let ts: Vec<T> = match t.peel() { T::Tup(v) if v.len() == n => v.clone(), _ => vec![T::Unk; n] };
                x.elems = x.elems.into_iter().zip(ts).map(|(e, t)| self.pat(e, g, &t)).collect(); Pat::Tuple(x)
            }
            Pat::TupleStruct(mut x) => {
                let inner = match x.path.segments.last().unwrap().ident.to_string().as_str() { "Some" | "Ok" => t.arg(0), "Err" => T::N("Error".into(), vec![]), _ => T::Unk };
                x.elems = x.elems.into_iter().map(|e| self.pat(e, g, &inner)).collect(); Pat::TupleStruct(x)
            }
            Pat::Struct(mut x) => {
                for f in x.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        // shorthand: keep, but bind
                        if let Pat::Ident(i) = &*f.pat { let n = i.ident.to_string(); let ft = self.ix.field(t, &n); self.bind(&n, ft); self.locals.push(n); }
                    } else { *f.pat = self.pat((*f.pat).clone(), g, &T::Unk); }
                }
                Pat::Struct(x)
            }
            Pat::Reference(mut r) => { *r.pat = self.pat((*r.pat).clone(), g, t.peel()); Pat::Reference(r) }
            Pat::Paren(x) => self.pat(*x.pat, g, t),
            Pat::Type(x) => { let t = self.ix.ty(&x.ty); self.pat(*x.pat, g, &t) }
            Pat::Or(x) => {
                if x.cases.iter().all(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, Lit::Str(_)))) {
                    let v = self.fresh("p");
                    let cs: Vec<Expr> = x.cases.iter().map(|c| pq!(VEq::v_eq(& #v, & #c))).collect();
                    g.push(pq!((#(#cs)||*)));
                    return parse_quote!(#v);
                }
                let mut x = x; let mut gg = vec![];
                x.cases = x.cases.into_iter().map(|c| self.pat(c, &mut gg, t)).collect();
                if !gg.is_empty() { self.fail("or-pattern with literals"); }
                Pat::Or(x)
            }
            p => { self.fail("unsupported pattern"); p }
        }
    }

    // ---------- expressions ----------
    pub fn e(&mut self, e: Expr) -> (Expr, T) {
        match self.l(e) {
            L::E(e, t) => (e, t),
            L::C(c) => {
                let item = if c.ads.is_empty() { c.item.clone() } else { T::Unk };
                if c.ads.is_empty() { return (c.src, T::iter(item)); }
                let (e, it) = self.materialize(c, Sink::Collect, None);
                (pq!(VIter::from_vec(#e)), T::iter(it.arg(0)))
            }
        }
    }
    fn es(&mut self, v: impl IntoIterator<Item = Expr>) -> Vec<Expr> { v.into_iter().map(|x| self.e(x).0).collect() }

    fn path(&mut self, mut p: ExprPath) -> Expr {
        p.attrs.clear();
        if let Some(q) = &mut p.qself { *q.ty = self.ty(&q.ty.clone()); }
        let full: String = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        match full.as_str() {
            "std::str::from_utf8" | "core::str::from_utf8" | "str::from_utf8" => return pq!(v_from_utf8),
            "String::from_utf8" => return pq!(v_string_from_utf8),
            "String::from_utf8_lossy" => return pq!(v_from_utf8_lossy),
            "self" if self.self_this => return pq!(this),
            "String::new" => return pq!(v_string_new),
            "std::fmt::Error" => return pq!(v_fmt_error()),
            _ => {}
        }
        let first = p.path.segments[0].ident.to_string();
        if p.path.segments.len() > 1 && first.chars().next().unwrap().is_lowercase() && p.qself.is_none() && !matches!(first.as_str(), "u64" | "usize" | "u8" | "u32" | "str" | "i64") {
            match p.path.segments.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()) {
                Some(k) => p.path = Path { leading_colon: None, segments: p.path.segments.iter().skip(k).cloned().collect() },
                None if matches!(first.as_str(), "std" | "core" | "alloc" | "crate" | "super" | "self") => { let k = p.path.segments.len() - 1; p.path = Path { leading_colon: None, segments: p.path.segments.iter().skip(k).cloned().collect() } }
                None => { let id = format_ident!("{}", p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("__")); let mut last = p.path.segments.last().unwrap().clone(); last.ident = id; p.path = Path { leading_colon: None, segments: std::iter::once(last).collect() }; }
            }
        }
        let n = p.path.segments.len();
        for (i, s) in p.path.segments.iter_mut().enumerate() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { *t = self.ty(&t.clone()); } }
            }
            let nm = s.ident.to_string();
            match nm.as_str() {
                "BTreeMap" | "HashMap" | "Map" if i + 1 < n => s.ident = format_ident!("VMap"),
                "BTreeSet" | "HashSet" if i + 1 < n => s.ident = format_ident!("VSet"),
                "Into" => s.ident = format_ident!("VInto"), "From" => s.ident = format_ident!("VFrom"), "TryFrom" => s.ident = format_ident!("VTryFrom"),
                "FromStr" => s.ident = format_ident!("VFromStr"), "ToString" => s.ident = format_ident!("VToString"), "Clone" => s.ident = format_ident!("VClone"),
                "PartialEq" => s.ident = format_ident!("VEq"),
                _ => {}
            }
            if i + 1 == n && (n > 1 || p.qself.is_some()) { if let Some(r) = renamed(&nm) { s.ident = r; } }
        }
        Expr::Path(p)
    }

    pub fn l(&mut self, e: Expr) -> L {
        match e {
            Expr::Await(a) => self.l(*a.base),
            Expr::Paren(p) => match self.l(*p.expr) { L::E(e, t) => L::E(pq!((#e)), t), c => c },
            Expr::Group(p) => self.l(*p.expr),
            Expr::Lit(l) => { let t = match &l.lit { Lit::Str(_) => T::Str, Lit::Int(_) | Lit::Byte(_) => T::Int, Lit::Bool(_) => T::Bool, _ => T::Unk }; L::E(Expr::Lit(l), t) }
            Expr::Path(p) => {
                let t = if p.path.segments.len() == 1 { let n = p.path.segments[0].ident.to_string();
                    self.look(&n).or_else(|| self.ix.consts.get(&n).map(|c| self.ix.ty(&c.ty))).unwrap_or(T::Unk) } else { T::Unk };
                L::E(self.path(p), t)
            }
            Expr::Reference(mut r) => { let (x, t) = self.e(*r.expr); *r.expr = x; r.attrs.clear(); L::E(Expr::Reference(r), T::Ref(Box::new(t))) }
            Expr::Unary(mut u) => { let (x, t) = self.e(*u.expr); *u.expr = x; let t = match u.op { UnOp::Deref(_) => match t { T::Ref(t) => *t, t => t }, UnOp::Not(_) => t, _ => T::Int }; L::E(Expr::Unary(u), t) }
            Expr::Cast(mut c) => { let (x, _) = self.e(*c.expr); *c.expr = x; let t = self.ix.ty(&c.ty); L::E(Expr::Cast(c), t) }
            Expr::Field(mut f) => { let (x, t) = self.e(*f.base); let m = f.member.to_token_stream().to_string(); *f.base = x; let t = self.ix.field(&t, &m); L::E(Expr::Field(f), t) }
            Expr::Tuple(mut t) => { let mut ts = vec![]; let es: Vec<Expr> = t.elems.into_iter().map(|x| { let (e, ty) = self.e(x); ts.push(ty); e }).collect(); t.elems = es.into_iter().collect(); if t.elems.is_empty() { L::E(Expr::Tuple(t), T::Unit) } else { L::E(Expr::Tuple(t), T::Tup(ts)) } }
            Expr::Array(mut a) => { a.elems = self.es(a.elems).into_iter().collect(); L::E(Expr::Array(a), T::Slice(Box::new(T::Unk))) }
            Expr::Struct(mut s) => {
                s.attrs.clear();
                let last = s.path.segments.last().unwrap().ident.to_string();
                let n = s.path.segments.len();
                let name = if n > 1 { s.path.segments[n - 2].ident.to_string() } else { last };
                let t = T::N(name, vec![]);
                for f in s.fields.iter_mut() {
                    let ft = self.ix.field(&t, &f.member.to_token_stream().to_string());
                    self.expect = if ft != T::Unk { Some(ft) } else { None };
                    let (e, _) = self.e(f.expr.clone()); f.expr = e; f.colon_token = Some(Default::default());
                    self.expect = None;
                }
                if let Some(r) = &mut s.rest { **r = self.e((**r).clone()).0; }
                let t = if t.name() == "Self" { self.fn_self.clone() } else { t };
                L::E(Expr::Struct(s), t)
            }
            Expr::Assign(mut a) => { let (r, _) = self.e(*a.right); let (l, _) = self.e(*a.left); *a.left = l; *a.right = r; L::E(Expr::Assign(a), T::Unit) }
            Expr::Return(mut r) => { let exp = self.ret.clone(); if let Some(x) = r.expr { self.expect = Some(exp); if self.depth == 0 && call_like(&x) { self.exit_ctx = 2; } r.expr = Some(Box::new(self.e(*x).0)); self.expect = None; } 
                let p = self.proof("return"); if !p.is_empty() { return L::E(Expr::Verbatim(quote!({ #p #r })), T::Unk); } L::E(Expr::Return(r), T::Unk) }
            Expr::Break(mut b) => { if let Some(x) = b.expr { b.expr = Some(Box::new(self.e(*x).0)); }
                let k = self.target(b.label.as_ref().map(|l| l.ident.to_string()));
                let p = k.map(|k| self.proof(&format!("loop {k} break"))).unwrap_or_default();
                L::E(if p.is_empty() { Expr::Break(b) } else { Expr::Verbatim(quote!({ #p #b })) }, T::Unk) }
            Expr::Continue(c) => {
                let k = self.target(c.label.as_ref().map(|l| l.ident.to_string()));
                let p = k.map(|k| { let q = self.proof(&format!("loop {k} continue")); if q.is_empty() { self.proof(&format!("loop {k} end")) } else { q } }).unwrap_or_default();
                L::E(if p.is_empty() { Expr::Continue(c) } else { Expr::Verbatim(quote!({ #p #c })) }, T::Unk)
            }
            Expr::Try(mut t) => { if self.depth == 0 && self.vret.is_empty() && call_like(&t.expr) { self.exit_ctx = 1; } self.try_ctx = self.vret.is_empty() && matches!(&*t.expr, Expr::MethodCall(m) if m.method == "collect"); let (x, ty) = self.e(*t.expr); self.exit_ctx = 0; self.try_ctx = false; *t.expr = x; let r = match ty.name() { "Option" | "Result" => ty.arg(0), _ => T::Unk }; L::E(Expr::Try(t), r) }
            Expr::Block(mut b) => { if b.label.is_some() { self.fail("labeled block"); } b.attrs.clear(); let (k, t) = self.block(b.block); b.block = k; L::E(Expr::Block(b), t) }
            Expr::Async(a) => { let (k, t) = self.block(a.block); L::E(Expr::Block(ExprBlock { attrs: vec![], label: None, block: k }), t) }
            Expr::If(i) => self.if_(i),
            Expr::Let(mut l) => {
                let (x, t) = self.e(*l.expr);
                let mut g = vec![];
                let p = self.pat((*l.pat).clone(), &mut g, &t);
                if !g.is_empty() { self.fail("literal pattern in if-let"); }
                *l.expr = x; *l.pat = p;
                L::E(Expr::Let(l), T::Bool)
            }
            Expr::Match(mut m) => {
                m.attrs.clear();
                let exp = self.expect.take();
                let (s, st) = self.e(*m.expr);
                let mut ty = T::Unk;
                let arms = m.arms.clone();
                m.arms = arms.into_iter().map(|mut a| {
                    self.scopes.push(HashMap::new());
                    let mut g = vec![];
                    a.attrs.clear();
                    a.pat = self.pat(a.pat, &mut g, &st);
                    if let Some((_, x)) = a.guard.take() { let (x, _) = self.e(*x); g.push(x); }
                    if !g.is_empty() { let x: Expr = if g.len() == 1 { g.pop().unwrap() } else { ex(quote!(#((#g))&&*)) }; a.guard = Some((Default::default(), Box::new(x))); }
                    self.expect = exp.clone();
                    let (b, t) = self.e(*a.body);
                    self.expect = None;
                    if !matches!(b, Expr::Return(_)) && (ty == T::Unk || ty.name() == "Option" && ty.arg(0) == T::Unk && t.name() == "Option") { ty = t; }
                    *a.body = match b { Expr::Verbatim(ts) => ex_block(ts), b => b };
                    a.comma = Some(Default::default());
                    self.scopes.pop();
                    a
                }).collect();
                *m.expr = s;
                L::E(Expr::Match(m), ty)
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Index(i) => {
                let (base, bt) = self.e(*i.expr);
                if let Expr::Range(r) = *i.index {
                    let lo: Expr = match r.start { Some(x) => self.e(*x).0, None => pq!(0usize) };
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    if incl { self.fail("inclusive range index"); }
                    let t = match bt.name() { "String" => T::Str, "Vec" => T::Slice(Box::new(bt.arg(0))), _ => bt.peel().clone() };
                    let x: Expr = match r.end { Some(h) => { let h = self.e(*h).0; pq!((*(#base).v_slice(#lo, #h))) } None => pq!((*(#base).v_slice_from(#lo))) };
                    return L::E(x, t);
                }
                let (ix, _) = self.e(*i.index);
                let t = bt.arg(0);
                L::E(pq!(#base[#ix]), t)
            }
            Expr::Macro(m) => { let (e, t) = self.mac(m.mac); L::E(e, t) }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::ForLoop(f) => {
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                let fe = match *f.expr { Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => { let r = m.receiver; parse_quote!(&mut #r) } e => e };
                match fe {
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                        let lo = self.e(*r.start.unwrap()).0; let hi = self.e(*r.end.unwrap()).0;
                        if matches!(r.limits, RangeLimits::Closed(_)) { self.fail("inclusive range loop"); }
                        let k = self.new_loop("range");
                        let i = format_ident!("__i{}", k); let n = format_ident!("__n{}", k);
                        self.scopes.push(HashMap::new());
                        let mut g = vec![];
                        let p = self.pat(*f.pat, &mut g, &T::Int);
                        self.stack.push((label.clone(), k));
                        let (b, _) = self.block(f.body);
                        self.stack.pop();
                        self.scopes.pop();
                        let body = quote!(if !(#i < #n) { break; } let #p = #i; #i = #i + 1;);
                        let lp = self.mk_loop(k, label, body, b.to_token_stream(), quote!(#i <= #n || #n < #i), quote!(), quote!(#n as int - #i as int), true);
                        L::E(Expr::Verbatim(quote!({ let mut #i = #lo; let #n = #hi; #lp })), T::Unit)
                    }
                    Expr::Reference(r) if r.mutability.is_some() => {
                        // for x in &mut vec
                        let (v, vt) = self.e(*r.expr);
                        let k = self.new_loop("mut");
                        let i = format_ident!("__i{}", k);
                        self.scopes.push(HashMap::new());
                        let mut g = vec![];
                        let p = self.pat(*f.pat, &mut g, &vt.arg(0));
                        self.stack.push((label.clone(), k));
                        let (b, _) = self.block(f.body);
                        self.stack.pop();
                        self.scopes.pop();
                        let body = quote!(if !(#i < #v.len()) { break; } let #p = &mut #v[#i]; #i = #i + 1;);
                        let lp = self.mk_loop(k, label, body, b.to_token_stream(), quote!(#i <= #v.len()), quote!(), quote!(#v.len() - #i), true);
                        L::E(Expr::Verbatim(quote!({ let mut #i: usize = 0; #lp })), T::Unit)
                    }
                    x => {
                        let c = self.chain_of(x);
                        let mut c = c;
                        // only a label on the outermost
                        let _ = &mut c;
                        let (e, _) = self.materialize(c, Sink::Body(*f.pat, f.body), label);
                        L::E(e, T::Unit)
                    }
                }
            }
            Expr::While(w) => {
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                let k = self.new_loop("while");
                self.scopes.push(HashMap::new());
                let r = match *w.cond {
                    Expr::Let(l) => {
                        let (x, t) = self.e(*l.expr);
                        let mut g = vec![];
                        let p = self.pat((*l.pat).clone(), &mut g, &t);
                        self.stack.push((label.clone(), k));
                        let (b, _) = self.block(w.body);
                        self.stack.pop();
                        let brk = self.proof(&format!("loop {k} break"));
                        let start = self.proof(&format!("loop {k} start"));
                        let end = self.proof(&format!("loop {k} end"));
                        let gd = if g.is_empty() { quote!() } else { quote!(if #((#g))&&*) };
                        let stmts = b.stmts;
                        let hd = self.proof(&format!("loop {k} head"));
                        let body = quote!(#hd match #x { #p #gd => { #start #(#stmts)* #end } _ => { #brk break; } });
                        self.mk_loop(k, label, body, quote!(), quote!(), quote!(), quote!(), false)
                    }
                    c => {
                        let (c, _) = self.e(c);
                        self.stack.push((label.clone(), k));
                        let (b, _) = self.block(w.body);
                        self.stack.pop();
                        let body = quote!(if !(#c) { break; });
                        self.mk_loop(k, label, body, b.to_token_stream(), quote!(), quote!(!(#c)), quote!(), true)
                    }
                };
                self.scopes.pop();
                L::E(Expr::Verbatim(r), T::Unit)
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(|l| l.name.ident.to_string());
                let k = self.new_loop("while");
                self.stack.push((label.clone(), k));
                let (b, _) = self.block(l.body);
                self.stack.pop();
                let r = self.mk_loop(k, label, quote!(), b.to_token_stream(), quote!(), quote!(), quote!(), true);
                L::E(Expr::Verbatim(r), T::Unk)
            }
            Expr::Closure(c) => { self.fail("closure value"); L::E(Expr::Closure(c), T::Unk) }
            Expr::Range(r) => {
                if r.start.is_none() || r.end.is_none() || matches!(r.limits, RangeLimits::Closed(_)) { self.fail("range value"); return L::E(Expr::Range(r), T::Unk); }
                let lo = self.e(*r.start.unwrap()).0; let hi = self.e(*r.end.unwrap()).0;
                L::E(pq!(v_range(#lo, #hi)), T::iter(T::Int))
            }
            Expr::Verbatim(v) => L::E(Expr::Verbatim(v), T::Unk),
            e => { self.fail(format!("unsupported expression {}", e.to_token_stream().to_string().chars().take(40).collect::<String>())); L::E(e, T::Unk) }
        }
    }
    fn target(&self, label: Option<String>) -> Option<usize> {
        match label { None => self.stack.last().map(|x| x.1), Some(l) => self.stack.iter().rev().find(|x| x.0.as_deref() == Some(&l)).map(|x| x.1) }
    }
    fn mk_loop(&mut self, k: usize, label: Option<String>, head: TokenStream, body: TokenStream, auto_inv: TokenStream, auto_ens: TokenStream, auto_dec: TokenStream, wrap: bool) -> TokenStream {
        let mut lc = self.c.loops.get(&k).cloned().unwrap_or_default();
        for x in [&mut lc.inv, &mut lc.xinv, &mut lc.ens, &mut lc.dec] { *x = { let t = x.clone(); let mut t = t; for (a, b) in self.alias.get(&k).into_iter().flatten() { t = sub_word(&t, a, b); } t }; }
        let lab = label.map(|l| { let lt = Lifetime::new(&format!("'{l}"), proc_macro2::Span::call_site()); quote!(#lt :) }).unwrap_or_default();
        let cl = |kw: &str, a: TokenStream, u: &str| -> TokenStream {
            let kw = format_ident!("{}", kw);
            let u = toks(u);
            let a = if lc.noauto { quote!() } else { a };
            match (a.is_empty(), u.is_empty()) { (true, true) => quote!(), (false, true) => quote!(#kw #a,), (true, false) => quote!(#kw #u), _ => quote!(#kw #a, #u) }
        };
        let ax = std::mem::take(&mut self.auto_xinv);
        let xinv = cl("invariant_except_break", ax, &lc.xinv);
        let inv = cl("invariant", auto_inv, &lc.inv);
        let ens = cl("ensures", auto_ens, &lc.ens);
        let dec = if lc.dec.trim().is_empty() { if auto_dec.is_empty() { quote!() } else { quote!(decreases #auto_dec) } } else { let d = toks(&lc.dec); quote!(decreases #d) };
        let pre = self.proof(&format!("loop {k} pre"));
        let post = self.proof(&format!("loop {k} post"));
        let attr = toks(&lc.attr);
        if wrap {
            let start = self.proof(&format!("loop {k} start"));
            let end = self.proof(&format!("loop {k} end"));
            quote!(#pre #attr #lab loop #xinv #inv #ens #dec { #head #start #body #end } #post)
        } else { quote!(#pre #attr #lab loop #xinv #inv #ens #dec { #head } #post) }
    }
    fn if_(&mut self, i: ExprIf) -> L {
        let exp = self.expect.take();
        self.scopes.push(HashMap::new());
        // if let with literal patterns becomes a match
        if let Expr::Let(l) = &*i.cond {
            let l = l.clone();
            let (x, t) = self.e(*l.expr);
            let mut g = vec![];
            let p = self.pat(*l.pat, &mut g, &t);
            self.expect = exp.clone();
            let (b, bt) = self.block(i.then_branch);
            self.scopes.pop();
            self.expect = exp;
            let els = i.else_branch.map(|(_, e)| self.e(*e));
            self.expect = None;
            if g.is_empty() {
                return L::E(match els { Some((e, _)) => { let e = brace(e); ex(quote!(if let #p = #x #b else #e)) } None => ex(quote!(if let #p = #x #b)) }, bt);
            }
            let e = els.map(|e| e.0.to_token_stream()).unwrap_or(quote!({}));
            return L::E(ex(quote!(match #x { #p if #((#g))&&* => #b, _ => #e })), bt);
        }
        let (c, _) = self.e(*i.cond);
        self.expect = exp.clone();
        let (b, mut bt) = self.block(i.then_branch);
        self.scopes.pop();
        self.expect = exp;
        let els = i.else_branch.map(|(_, e)| self.e(*e));
        self.expect = None;
        let x = match els { Some((e, et)) => { if bt == T::Unk { bt = et; } let e = brace(e); ex(quote!(if #c #b else #e)) } None => ex(quote!(if #c #b)) };
        L::E(x, bt)
    }
    fn binary(&mut self, b: ExprBinary) -> L {
        let (l, lt) = self.e(*b.left);
        let (r, rt) = self.e(*b.right);
        // a block-like operand would end the statement it starts
        let l: Expr = match l.to_token_stream().into_iter().next() { Some(TokenTree::Ident(i)) if i == "match" || i == "if" => pq!((#l)), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Brace => pq!((#l)), _ => l };
        let native = is_int_lit(&l) || is_int_lit(&r) || (lt == T::Int && rt == T::Int) || (lt == T::Bool && rt == T::Bool);
        let op = b.op;
        let cmp = |m: &str| -> Expr { let id = format_ident!("{}", m); let tr = if m == "v_eq" { quote!(VEq) } else { quote!(VOrd) }; pq!(#tr::#id(& #l, & #r)) };
        let (e, t): (Expr, T) = match op {
            BinOp::Eq(_) if !native => (cmp("v_eq"), T::Bool),
            BinOp::Ne(_) if !native => { let e = cmp("v_eq"); (pq!(!(#e)), T::Bool) }
            BinOp::Lt(_) if !native => (cmp("v_lt"), T::Bool), BinOp::Le(_) if !native => (cmp("v_le"), T::Bool),
            BinOp::Gt(_) if !native => (cmp("v_gt"), T::Bool), BinOp::Ge(_) if !native => (cmp("v_ge"), T::Bool),
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => (pq!(#l #op #r), T::Bool),
            BinOp::AddAssign(_) if lt.peel() == &T::string() || rt.peel() == &T::string() || rt.peel() == &T::Str => { let r = match r { Expr::Reference(r) => (*r.expr).clone(), r => r }; (pq!(#l.v_push_str((#r).as_str())), T::Unit) }
            BinOp::Add(_) if lt.peel() == &T::string() || rt.peel() == &T::string() || rt.peel() == &T::Str => { let r = match r { Expr::Reference(r) => (*r.expr).clone(), r => r }; (pq!(v_str_add(#l, (#r).as_str())), T::string()) }
            BinOp::AddAssign(_) => (pq!(#l = #l + #r), T::Unit),
            BinOp::SubAssign(_) => (pq!(#l = #l - #r), T::Unit),
            BinOp::BitAndAssign(_) if rt == T::Bool => (pq!(#l = #l && #r), T::Unit),
            _ => (pq!(#l #op #r), lt),
        };
        L::E(e, t)
    }

    // ---------- macros ----------
    fn mac(&mut self, m: Macro) -> (Expr, T) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let benign = |ts: &TokenStream| -> bool { benign_ts(ts) };
        match n.as_str() {
            "anyhow" | "format_err" => { if !benign(&m.tokens) { self.fail("partial expression in error text"); } (pq!(v_error()), T::N("Error".into(), vec![])) }
            "bail" => { if !benign(&m.tokens) { self.fail("partial expression in error text"); } (pq!(return Err(v_error())), T::Unk) }
            "ensure" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                match args { Ok(a) => { let c = self.e(a[0].clone()).0; (pq!(if !(#c) { return Err(v_error()); }), T::Unit) } Err(_) => { self.fail("ensure!"); (pq!(()), T::Unit) } }
            }
            "warn" | "info" | "debug" | "error" | "trace" | "println" | "eprintln" | "log" => { if !benign(&m.tokens) { self.fail("partial expression in log text"); } (pq!(()), T::Unit) }
            "format" => { let e = self.format(m.tokens); (e, T::string()) }
            "write" => {
                let v: Vec<TokenTree> = m.tokens.into_iter().collect();
                let k = v.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).unwrap_or(v.len());
                let f: Expr = parse2(v[..k].iter().cloned().collect()).unwrap();
                let rest: TokenStream = v[(k + 1).min(v.len())..].iter().cloned().collect();
                let f = self.e(f).0;
                let s = self.format(rest);
                (pq!(#f.v_write_string(#s)), T::res(T::Unit))
            }
            "vec" => {
                if m.tokens.is_empty() { return (pq!(Vec::new()), T::vec(T::Unk)); }
                match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    Ok(a) => { let es = self.es(a); let v = self.fresh("v"); (ex(quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v })), T::vec(T::Unk)) }
                    Err(_) => { self.fail("vec![x; n]"); (pq!(()), T::Unk) }
                }
            }
            "json" => { if m.tokens.to_string().replace(' ', "") == "{}" { (pq!(v_json_empty()), T::N("Value".into(), vec![])) } else { self.fail("json! literal"); (pq!(()), T::Unk) } }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(M(e, p, g)) } }
                match parse2::<M>(m.tokens) {
                    Ok(M(e, p, g)) => { let gd = g.map(|g| quote!(if #g)).unwrap_or_default(); let x: Expr = pq!(match #e { #p #gd => true, _ => false }); self.e(x) }
                    Err(_) => { self.fail("matches!"); (pq!(()), T::Unk) }
                }
            }
            "__vtry" => {
                let v: Vec<TokenTree> = m.tokens.into_iter().collect();
                let g = |i: usize| match &v[i] { TokenTree::Group(g) => g.stream(), _ => unreachable!() };
                let (e, p, r): (Expr, _, Expr) = (parse2(g(0)).unwrap(), g(1), { let t = g(2); parse2(quote!({ #t })).unwrap() });
                let exp = self.expect.take();
                let (e, t) = self.e(e);
                self.scopes.push(HashMap::new());
                let inner = t.arg(0);
                let p = syn::parse::Parser::parse2(Pat::parse_multi, p.clone()).or_else(|_| syn::parse::Parser::parse2(|i: parse::ParseStream| { let pat = Pat::parse_single(i)?; let c = i.parse()?; let ty = i.parse()?; Ok(Pat::Type(PatType { attrs: vec![], pat: Box::new(pat), colon_token: c, ty })) }, p)).unwrap();
                let (p, inner, ann) = match p { Pat::Type(pt) => { let it = self.ix.ty(&pt.ty); let ty = self.ty(&pt.ty); (*pt.pat, it, quote!(: #ty)) } p => (p, inner, quote!()) };
                let mut gs = vec![];
                let p = self.pat(p, &mut gs, &inner);
                if !gs.is_empty() { self.fail("literal pattern in let"); }
                self.expect = exp;
                let (r, rt) = self.e(r);
                self.expect = None;
                self.scopes.pop();
                let h = self.fresh("t");
                let opt = t.name() == "Option" || t.name() != "Result" && self.vret.last() == Some(&"O");
                let x = if opt { quote!(match #e { None => None, Some(#h) => { let #p #ann = #h; #r } }) } else { let er = self.fresh("e"); quote!(match #e { Err(#er) => Err(#er), Ok(#h) => { let #p #ann = #h; #r } }) };
                (ex(x), rt)
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => (pq!(v_panic()), T::Unk),
            "assert" | "debug_assert" => match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                Ok(a) => { let c = self.e(a[0].clone()).0; (pq!(if !(#c) { v_panic(); }), T::Unit) } Err(_) => { self.fail("assert!"); (pq!(()), T::Unk) } },
            n => { self.fail(format!("macro {n}!")); (pq!(()), T::Unk) }
        }
    }
    fn format(&mut self, ts: TokenStream) -> Expr {
        struct F(LitStr, Vec<(Option<Ident>, Expr)>);
        impl parse::Parse for F { fn parse(i: parse::ParseStream) -> Result<Self> {
            let l = i.parse()?; let mut v = vec![];
            while i.peek(Token![,]) { i.parse::<Token![,]>()?; if i.is_empty() { break; }
                if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) { let n: Ident = i.parse()?; i.parse::<Token![=]>()?; v.push((Some(n), i.parse()?)); } else { v.push((None, i.parse()?)); } }
            Ok(F(l, v)) } }
        let f = match parse2::<F>(ts) { Ok(f) => f, Err(_) => { self.fail("format string"); return pq!(v_string_new()); } };
        let v = self.fresh("f");
        let mut out = vec![];
        let lit = f.0.value();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0; let mut cur = String::new(); let mut pos = 0;
        macro_rules! flush { () => { if !cur.is_empty() { let c = std::mem::take(&mut cur); out.push(quote!(v_push_str(&mut #v, #c);)); } } }
        while i < cs.len() {
            if cs[i] == '{' && cs.get(i + 1) == Some(&'{') { cur.push('{'); i += 2; continue; }
            if cs[i] == '}' { cur.push('}'); i += 2; continue; }
            if cs[i] == '{' {
                flush!();
                let j = (i..cs.len()).find(|&j| cs[j] == '}').unwrap();
                let inner: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (inner, String::new()) };
                let e: Expr = if name.is_empty() { pos += 1; match f.1.get(pos - 1) { Some(x) => x.1.clone(), None => { self.fail("format args"); return pq!(v_string_new()); } } }
                    else if let Ok(k) = name.parse::<usize>() { f.1[k].1.clone() }
                    else if let Some(x) = f.1.iter().find(|x| x.0.as_ref().map(|n| *n == name).unwrap_or(false)) { x.1.clone() }
                    else { parse_str(&name).unwrap() };
                let (e, _) = self.e(e);
                if spec.is_empty() { out.push(quote!(v_push_disp(&mut #v, & #e);)); } else { out.push(quote!(v_push_opaque(&mut #v);)); }
                continue;
            }
            cur.push(cs[i]); i += 1;
        }
        flush!();
        ex(quote!({ let mut #v = v_string_new(); #(#out)* #v }))
    }

    // ---------- calls ----------
    fn call(&mut self, c: ExprCall) -> L {
        let exp = self.expect.take();
        let ctx = std::mem::take(&mut self.exit_ctx);
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let full = segs.join("::");
            let last = segs.last().unwrap().clone();
            match full.as_str() {
                // the room reserved is dropped (lengths of values in memory, so that their sums do not overflow in practice)
                "Vec::with_capacity" | "String::with_capacity" if is_capacity(&c.args[0]) => {
                    let mut f = p.clone(); f.path.segments.last_mut().unwrap().ident = format_ident!("new");
                    let e: Expr = pq!(#f()); return self.l(e);
                }
                "Some" => { self.expect = exp.map(|t| t.arg(0)); let (x, t) = self.e(c.args[0].clone()); self.expect = None; return L::E(pq!(Some(#x)), T::opt(t)); }
                "Ok" => { self.expect = exp.map(|t| t.arg(0)); let (x, t) = self.e(c.args[0].clone()); self.expect = None; return L::E(pq!(Ok(#x)), T::res(t)); }
                "Err" => { let (x, _) = self.e(c.args[0].clone()); return L::E(pq!(Err(#x)), T::res(T::Unk)); }
                "BTreeSet::from_iter" | "BTreeMap::from_iter" | "HashSet::from_iter" | "HashMap::from_iter" | "Vec::from_iter" => {
                    let ch = self.chain_of(c.args[0].clone());
                    let f = self.path(p.clone());
                    let (x, _) = self.force_viter(ch);
                    return L::E(pq!(#f(#x)), T::N(if full.contains("Set") { "VSet".into() } else if full.contains("Map") { "VMap".into() } else { "Vec".into() }, vec![]));
                }
                _ => {}
            }
            if segs.len() == 1 { if let Some(f) = self.local_fn(&last) {
                let args: Vec<(Expr, T)> = c.args.iter().map(|a| self.e(a.clone())).collect();
                let mut lets = vec![]; let mut xs = vec![];
                for (a, t) in args { let v = self.fresh("a"); lets.push(quote!(let #v = #a;)); xs.push((pq!(#v), t)); }
                let f = self.closure(Expr::Closure(f), 0);
                let (b, t) = self.apply(f, xs);
                return L::E(ex(quote!({ #(#lets)* #b })), t);
            } }
            // call through a local (function pointer)
            if segs.len() == 1 && self.look(&last).is_some() {
                let f = self.path(p.clone());
                let args = self.es(c.args);
                return L::E(pq!(#f.call(#(#args),*)), T::res(T::Unk));
            }
            let mut t = T::Unk;
            if segs.len() >= 2 {
                let owner = match segs[segs.len() - 2].as_str() { "Self" => self.fn_self.name().to_string(), o => o.to_string() };
                if let Some(f) = self.ix.fns.get(&format!("{owner}::{last}")) { t = self.ix.ret(f); self.calls.insert(f.id.clone()); }
                else if matches!(last.as_str(), "try_from" | "from_str") { t = T::res(T::N(owner.clone(), vec![])); }
                else if last == "new" || last == "from" || last == "with_capacity" { t = if owner == "BTreeMap" || owner == "HashMap" { T::N("VMap".into(), vec![]) } else if owner == "BTreeSet" { T::N("VSet".into(), vec![]) } else if owner == "Box" || owner == "Arc" { T::Unk } else { T::N(owner.clone(), vec![]) }; }
                else if last == "to_string" { t = T::string(); }
                else if full == "std::str::from_utf8" { t = T::res(T::Str); }
                else if full.starts_with("unsigned_varint::decode") || full == "serde_json::to_value" || last == "decode" || last == "from_value" { t = T::res(T::Unk); }
                else if full == "String::from_utf8" { t = T::res(T::string()); }
                else if owner == "Url" && last == "parse" { t = T::res(T::N("Url".into(), vec![])); }
                else if let Some(ids) = self.ix.by_name.get(&last) { if ids.len() == 1 { t = self.ix.ret(&self.ix.fns[&ids[0]]); self.calls.insert(ids[0].clone()); } }
            } else if let Some(f) = self.ix.fns.get(&last) {
                t = self.ix.ret(f); self.calls.insert(last.clone());
            }
            // `Type::method(x, ..)` on a type of a dependency
            if segs.len() >= 2 && !c.args.is_empty() && matches!(last.as_str(), "to_string" | "as_str" | "len" | "is_empty" | "to_owned" | "as_bytes" | "into_bytes" | "to_lowercase" | "trim" | "to_vec" | "as_slice" | "is_some" | "is_none" | "is_ok" | "is_err") && !self.ix.fns.contains_key(&format!("{}::{}", segs[segs.len() - 2], last)) {
                let (id, mut a) = (format_ident!("{}", last), c.args.iter().cloned());
                let r = match a.next().unwrap() { Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(), e => e };
                let m: Expr = pq!((#r).#id(#(#a),*));
                return self.l(m);
            }
            // uncontracted helper of the repository: inline it
            let hid = if segs.len() == 1 { last.clone() } else { format!("{}::{}", match segs[segs.len() - 2].as_str() { "Self" => self.fn_self.name().to_string(), o => o.to_string() }, last) };
            if let Some(f) = self.ix.fns.get(&hid).cloned() {
                if !self.known.contains(&hid) {
                    self.exit_ctx = ctx; let r = self.inline(&f, None, c.args.iter().cloned().collect()); self.exit_ctx = 0; if let Some(r) = r { return r; }
                }
            }
            let f = self.path(p.clone());
            let args = self.es(c.args);
            return L::E(pq!(#f(#(#args),*)), t);
        }
        let (f, _) = self.e(*c.func);
        let args = self.es(c.args);
        L::E(pq!(#f(#(#args),*)), T::Unk)
    }
    /// a closure bound to a local, when its captures still denote what they did where it was written
    fn local_fn(&mut self, n: &str) -> Option<ExprClosure> {
        let (c, ids) = self.funs.iter().rev().find_map(|s| s.get(n).cloned())?;
        if ids.iter().any(|(k, v)| self.bound.get(k).copied().unwrap_or(0) != *v) { self.fail("closure captures a name bound again"); }
        Some(c)
    }
    /// inline a helper that has no contract
    fn inline(&mut self, f: &FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<L> {
        if self.depth > 3 { return None; }
        let b = f.block.clone()?;
        let be = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() });
        let ctx = std::mem::take(&mut self.exit_ctx);
        let ret0 = self.ix.ret(f);
        let mut b = b;
        let flow = has_flow(&be);
        let deflowed = flow && !(ctx == 2 && self.depth == 0 || ctx >= 1 && ret0.name() == "Result" && only_errors(&b));
        if deflowed { b = Flow::new().block(&b)?; }
        let kind = if deflowed { match ret0.name() { "Option" => "O", _ => "R" } } else { "" };
        let mut lets: Vec<TokenStream> = vec![];
        let mut it = args.into_iter();
        let mut body = b;
        let outer_self = self.fn_self.clone();
        let mut scope = HashMap::new();
        let mut binds = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let rx = recv.clone()?;
                    let (x, xt) = self.e(rx);
                    let id = format_ident!("__self{}", { self.uniq += 1; self.uniq });
                    let is_path = matches!(&x, Expr::Path(_));
                    // keep place semantics for references
                    let init: TokenStream = if r.reference.is_some() { if r.mutability.is_some() { quote!(&mut #x) } else if is_path || !matches!(x, Expr::Reference(_)) { quote!(& #x) } else { quote!(#x) } } else { quote!(#x) };
                    let x_is_self = matches!(&x, Expr::Path(p) if p.path.is_ident("self"));
                    if x_is_self && r.reference.is_some() {
                        // `self` denotes the same place
                    } else {
                        lets.push(quote!(let #id = #init;));
                        body = subst_self(body, &id);
                        scope.insert(id.to_string(), xt);
                    }
                }
                FnArg::Typed(p) => {
                    let a = it.next()?;
                    // the same name on both sides denotes the same thing
                    if let (Expr::Path(q), Pat::Ident(i)) = (&a, &*p.pat) { if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() && q.path.is_ident(&i.ident) && !self.self_this { continue; } }
                    let (x, _) = self.e(a);
                    let t = self.ix.ty(&p.ty);
                    let ty = self.ty(&p.ty);
                    let has_generic = f.sig.generics.type_params().any(|g| contains_ident(&ty.to_token_stream(), &g.ident.to_string())) || f.impl_generics.type_params().any(|g| contains_ident(&ty.to_token_stream(), &g.ident.to_string()));
                    let tyt = if has_generic { quote!() } else { quote!(: #ty) };
                    let tmp = self.fresh("a");
                    lets.push(quote!(let #tmp #tyt = #x;));
                    binds.push((tmp, p.pat.clone(), t));
                }
            }
        }
        self.depth += 1;
        self.scopes.push(scope);
        for (tmp, pat, t) in binds {
            let mut g = vec![];
            let pt = self.pat((*pat).clone(), &mut g, &t);
            self.locals.pop();
            lets.push(quote!(let #pt = #tmp;));
        }
        if let Some(st) = &f.self_ty { let t = self.ix.ty(st); if t.name() != "Self" { self.fn_self = t; } }
        let st = std::mem::take(&mut self.stack);
        let nl = self.locals.len();
        let ret = self.ix.ret(f);
        self.expect = Some(ret.clone());
        if !kind.is_empty() { self.vret.push(kind); }
        let (blk, _) = self.block(body);
        if !kind.is_empty() { self.vret.pop(); }
        self.locals.truncate(nl);
        self.stack = st;
        self.scopes.pop();
        self.depth -= 1;
        self.fn_self = outer_self;
        self.inlined.insert(f.id.clone());
        let stmts = blk.stmts;
        Some(L::E(ex(quote!({ #(#lets)* #(#stmts)* })), ret))
    }

    fn closure(&mut self, e: Expr, arity: usize) -> ExprClosure {
        match e {
            Expr::Closure(c) => {
                let mut c = c;
                if has_flow(&c.body) {
                    let b: Block = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
                    match Flow::new().block(&b) { Some(b) => *c.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), None => self.fail("early exit in closure") }
                }
                c
            }
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "") == "Box::new" && c.args.len() == 1 => self.closure(c.args[0].clone(), arity),
            Expr::Path(p) if p.path.get_ident().is_some() && self.funs.iter().any(|s| s.contains_key(&p.path.get_ident().unwrap().to_string())) => {
                let c = self.local_fn(&p.path.get_ident().unwrap().to_string()).unwrap();
                self.closure(Expr::Closure(c), arity)
            }
            Expr::Path(p) => {
                let vs: Vec<Ident> = (0..arity).map(|_| self.fresh("c")).collect();
                parse_quote!(|#(#vs),*| #p(#(#vs),*))
            }
            Expr::Paren(p) => self.closure(*p.expr, arity),
            e => { self.fail("function value"); let _ = e; parse_quote!(|__x| __x) }
        }
    }
    /// apply a closure to argument expressions: `{ let p = a; body }`
    fn apply(&mut self, c: ExprClosure, args: Vec<(Expr, T)>) -> (Expr, T) {
        self.scopes.push(HashMap::new());
        let mut lets = vec![];
        for (p, (a, t)) in c.inputs.into_iter().zip(args) {
            let t = if let Pat::Type(pt) = &p { self.ix.ty(&pt.ty) } else { t };
            let (mutp, p) = (matches!(&p, Pat::Ident(i) if i.mutability.is_some()), p);
            let _ = mutp;
            let mut g = vec![];
            let p = self.pat(p, &mut g, &t);
            if !g.is_empty() { self.fail("literal pattern in closure"); }
            let p = match p { Pat::Type(pt) => *pt.pat, p => p };
            lets.push(quote!(let #p = #a;));
        }
        let l = self.l(*c.body);
        let (b, t) = match l { L::E(e, t) => (e, t), L::C(c) => self.force_viter(c) };
        self.scopes.pop();
        (ex(quote!({ #(#lets)* #b })), t)
    }
    fn chain_of(&mut self, e: Expr) -> Chain {
        match self.l(e) {
            L::C(c) => c,
            L::E(e, t) => {
                if t.name() == "VIter" { let a = t.arg(0); Chain { src: e, item: a, ads: vec![] } }
                else {
                    let item = match t.peel() { T::N(n, a) if n == "VMap" => T::Tup(a.iter().map(|x| T::Ref(Box::new(x.clone()))).collect()), _ => t.arg(0) };
                    let item = if matches!(t, T::Ref(_)) { T::Ref(Box::new(item)) } else { item };
                    Chain { src: pq!(VIntoIter::v_into_iter(#e)), item, ads: vec![] }
                }
            }
        }
    }
    fn force_viter(&mut self, c: Chain) -> (Expr, T) {
        if c.ads.is_empty() { return (c.src, T::iter(c.item)); }
        let (e, t) = self.materialize(c, Sink::Collect, None);
        (pq!(VIter::from_vec(#e)), T::iter(t.arg(0)))
    }
    fn materialize(&mut self, c: Chain, sink: Sink, label: Option<String>) -> (Expr, T) {
        let k = self.new_loop(match &sink { Sink::Collect | Sink::TryCollect(_) | Sink::Body(..) => "each", Sink::Fold(..) | Sink::Reduce(_) => "fold", Sink::Any(_) | Sink::All(_) => "any", Sink::Count => "count", _ => "find" });
        let hint = self.out_hint.take();
        let (lt, ok) = (self.loop_text(k), format!("__out{k}"));
        let mut sink = sink;
        match &mut sink {
            Sink::Collect | Sink::TryCollect(_) => if let Some(h) = hint { if contains_word(&lt, &h) && !contains_word(&lt, &ok) { self.alias.insert(k, vec![(h, ok)]); } },
            Sink::Body(_, b) if contains_word(&lt, &ok) => if let Some(x) = accumulator(b, &format!("__y{k}"), contains_word(&lt, &format!("__y{k}"))) { self.alias.insert(k, vec![(ok, x)]); },
            _ => {}
        }
        let it = format_ident!("__it{}", k);
        let gs = format_ident!("__s{}", k);
        let out = format_ident!("__out{}", k);
        let bad = format_ident!("__bad{}", k);
        let x = format_ident!("__x{}", k);
        let src = c.src;
        self.stack.push((label.clone(), k));
        self.scopes.push(HashMap::new());
        let mut outt = T::Unk;
        let (init, mut fin): (TokenStream, TokenStream) = match &sink {
            Sink::Collect => (quote!(let mut #out = Vec::new();), quote!(#out)),
            Sink::TryCollect(true) => (quote!(let mut #out = Vec::new();), quote!(Ok::<_, Error>(#out))),
            Sink::TryCollect(false) => (quote!(let mut #out = Vec::new(); let mut #bad = false;), quote!(if #bad { Err(v_error()) } else { Ok(#out) })),
            Sink::Body(..) => (quote!(), quote!()),
            Sink::Fold(i, _) => { let (i, t) = self.e(i.clone()); outt = t; (quote!(let mut #out = #i;), quote!(#out)) }
            Sink::Reduce(_) => (quote!(let mut #out = None;), quote!(#out)),
            Sink::Any(_) => (quote!(let mut #out = false;), quote!(#out)),
            Sink::All(_) => (quote!(let mut #out = true;), quote!(#out)),
            Sink::Find(_) | Sink::FindMap(_) | Sink::Position(_) => (quote!(let mut #out = None;), quote!(#out)),
            Sink::Count => (quote!(let mut #out: usize = 0;), quote!(#out)),
        };
        let _ = &mut fin;
        let cuts = c.ads.iter().any(|a| matches!(a.0, Ad::MapWhile | Ad::TakeWhile));
        let early = matches!(sink, Sink::TryCollect(false) | Sink::Any(_) | Sink::All(_) | Sink::Find(_) | Sink::FindMap(_)) || c.ads.iter().any(|a| matches!(a.0, Ad::MapWhile | Ad::TakeWhile)) || matches!(&sink, Sink::Body(_, b) if has_break(b));
        let mut ads = c.ads; ads.reverse();
        let (body, ot) = self.emit_ads(ads, pq!(#x), c.item.clone(), &sink, &out, k);
        if outt == T::Unk { outt = ot; }
        let init = if matches!(sink, Sink::Collect) && outt == T::string() { quote!(let mut #out: Vec<String> = Vec::new();) } else { init };
        self.scopes.pop();
        self.stack.pop();
        let start = self.proof(&format!("loop {k} start"));
        let end = self.proof(&format!("loop {k} end"));
        let brk = self.proof(&format!("loop {k} break"));
        let head = quote!(match #it.v_next() { None => { #brk break; } Some(#x) => { #start #body #end } });
        let all = quote!(#it.pos() == #it.seq().len());
        let (xinv, ens) = if cuts { (quote!(), quote!()) } else { match &sink {
            Sink::TryCollect(false) => (quote!(!#bad), quote!(#bad || #all)),
            Sink::Any(_) => (quote!(!#out), quote!(#out || #all)),
            Sink::All(_) => (quote!(#out), quote!(!#out || #all)),
            Sink::Find(_) | Sink::FindMap(_) => (quote!(#out is None), quote!(#out is Some || #all)),
            _ => (quote!(), if early { quote!() } else { all }),
        } };
        self.auto_xinv = xinv;
        let lp = self.mk_loop(k, label, head, quote!(), quote!(#it.seq() == #gs, 0 <= #it.pos() <= #it.seq().len()), ens, quote!(#it.seq().len() - #it.pos()), false);
        let e = Expr::Verbatim(quote!({ let mut #it = #src; let ghost #gs = #it.seq(); #init #lp #fin }));
        let t = match sink { Sink::Collect => T::vec(outt), Sink::TryCollect(_) => T::res(T::vec(outt)), Sink::Any(_) | Sink::All(_) => T::Bool, Sink::Count => T::Int, Sink::Reduce(_) | Sink::Find(_) | Sink::FindMap(_) => T::opt(outt), Sink::Position(_) => T::opt(T::Int), Sink::Body(..) => T::Unit, Sink::Fold(..) => outt };
        (e, t)
    }
    fn emit_ads(&mut self, mut ads: Vec<(Ad, Expr)>, cur: Expr, item: T, sink: &Sink, out: &Ident, k: usize) -> (TokenStream, T) {
        match ads.pop() {
            None => match sink {
                Sink::Collect => (quote!(#out.push(#cur);), item),
                Sink::TryCollect(true) => (quote!(#out.push(#cur?);), item.arg(0)),
                Sink::TryCollect(false) => { let y = self.fresh_y(k); let bad = format_ident!("__bad{}", k); (quote!(match #cur { Ok(#y) => { #out.push(#y); } Err(_) => { #bad = true; break; } }), item.arg(0)) }
                Sink::Body(p, b) => {
                    let mut g = vec![];
                    let p = self.pat(p.clone(), &mut g, &item);
                    let (b, _) = self.block(b.clone());
                    let stmts = b.stmts;
                    (quote!(let #p = #cur; #(#stmts)*), T::Unit)
                }
                Sink::Fold(_, c) => { let (b, t) = self.apply(c.clone(), vec![(pq!(#out), T::Unk), (cur, item)]); (quote!(#out = #b;), t) }
                Sink::Reduce(c) => { let l = self.fresh("l"); let (b, t) = self.apply(c.clone(), vec![(pq!(#l), item.clone()), (cur.clone(), item)]); (quote!(#out = match #out { None => Some(#cur), Some(#l) => Some(#b) };), t) }
                Sink::Any(c) => { let c = self.closure(c.clone(), 1); let (b, _) = self.apply(c, vec![(cur, item)]); (quote!(if #b { #out = true; break; }), T::Bool) }
                Sink::All(c) => { let c = self.closure(c.clone(), 1); let (b, _) = self.apply(c, vec![(cur, item)]); (quote!(if !(#b) { #out = false; break; }), T::Bool) }
                Sink::Find(c) => { let c = self.closure(c.clone(), 1); let (b, _) = self.apply(c, vec![(pq!(& #cur), item.clone())]); (quote!(if #b { #out = Some(#cur); break; }), item) }
                Sink::FindMap(c) => { let c = self.closure(c.clone(), 1); let (b, t) = self.apply(c, vec![(cur, item)]); let y = self.fresh_y(k); (quote!(if let Some(#y) = #b { #out = Some(#y); break; }), t.arg(0)) }
                Sink::Position(_) => { self.fail("position"); (quote!(), T::Int) }
                Sink::Count => (quote!(#out = #out + 1;), T::Int),
            },
            Some((ad, c)) => {
                let c = self.closure(c, 1);
                let y = if matches!(ad, Ad::Filter | Ad::TakeWhile) { format_ident!("__y") } else { self.fresh_y(k) };
                let nl = self.proof(&format!("loop {k} skip"));
                match ad {
                    Ad::Map => { let (b, t) = self.apply(c, vec![(cur, item)]); let (r, o) = self.emit_ads(ads, pq!(#y), t, sink, out, k); (quote!(let #y = #b; #r), o) }
                    Ad::Filter => { let (b, _) = self.apply(c, vec![(pq!(& #cur), item.clone())]); let (r, o) = self.emit_ads(ads, cur, item, sink, out, k); (quote!(if #b { #r } else { #nl }), o) }
                    Ad::FilterMap => { let (b, t) = self.apply(c, vec![(cur, item)]); let (r, o) = self.emit_ads(ads, pq!(#y), t.arg(0), sink, out, k); (quote!(match #b { Some(#y) => { #r } None => { #nl } }), o) }
                    Ad::MapWhile => { let (b, t) = self.apply(c, vec![(cur, item)]); let (r, o) = self.emit_ads(ads, pq!(#y), t.arg(0), sink, out, k); (quote!(match #b { Some(#y) => { #r } None => { break; } }), o) }
                    Ad::TakeWhile => { let (b, _) = self.apply(c, vec![(pq!(& #cur), item.clone())]); let (r, o) = self.emit_ads(ads, cur, item, sink, out, k); (quote!(if #b { #r } else { break; }), o) }
                    Ad::FlatMap => {
                        let (b, t) = self.apply(c, vec![(cur, item)]);
                        let it: Expr = if t.name() == "VIter" { pq!(#b) } else { pq!(VIntoIter::v_into_iter(#b)) };
                        if ads.is_empty() && matches!(sink, Sink::Collect) { return (quote!(let #y = #it; #out.v_extend(#y);), t.arg(0)); }
                        let k2 = self.new_loop("flat");
                        let it2 = format_ident!("__it{}", k2); let x2 = format_ident!("__x{}", k2); let gs = format_ident!("__s{}", k2);
                        self.stack.push((None, k2));
                        let (r, o) = self.emit_ads(ads, pq!(#x2), t.arg(0), sink, out, k2);
                        self.stack.pop();
                        let head = quote!(match #it2.v_next() { None => { break; } Some(#x2) => { #r } });
                        let lp = self.mk_loop(k2, None, head, quote!(), quote!(#it2.seq() == #gs, 0 <= #it2.pos() <= #it2.seq().len()), quote!(#it2.pos() == #it2.seq().len()), quote!(#it2.seq().len() - #it2.pos()), false);
                        (quote!(let mut #it2 = #it; let ghost #gs = #it2.seq(); #lp), o)
                    }
                }
            }
        }
    }

    fn method(&mut self, m: ExprMethodCall) -> L {
        let direct = std::mem::take(&mut self.try_ctx);
        let hint = self.out_hint.take();
        let exp = self.expect.take();
        let ctx = std::mem::take(&mut self.exit_ctx);
        let name = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let turbofish = m.turbofish.clone();
        let recv_src = (*m.receiver).clone();
        let recv = self.l(*m.receiver);
        // --- iterator chains
        let is_iter = match &recv { L::C(_) => true, L::E(_, t) => t.name() == "VIter" };
        if is_iter {
            let mk = |l: L| -> Chain { match l { L::C(c) => c, L::E(e, t) => { let item = t.arg(0); Chain { src: e, item, ads: vec![] } } } };
            let ad = match name.as_str() { "map" => Some(Ad::Map), "filter" => Some(Ad::Filter), "filter_map" => Some(Ad::FilterMap), "map_while" => Some(Ad::MapWhile), "take_while" => Some(Ad::TakeWhile), "flat_map" => Some(Ad::FlatMap), _ => None };
            if let Some(ad) = ad { let mut c = mk(recv); c.ads.push((ad, args[0].clone())); return L::C(c); }
            match name.as_str() {
                "flatten" if matches!(&recv, L::E(Expr::Call(f), t) if f.func.to_token_stream().to_string() == "v_opt_iter" && t.arg(0).peel().name() == "Vec") => {
                    let (e, t) = match recv { L::E(e, t) => (e, t), L::C(_) => unreachable!() };
                    let item = T::Ref(Box::new(t.arg(0).peel().arg(0)));
                    if let Expr::Call(f) = e { let a = &f.args[0]; return L::E(pq!(v_opt_list(#a)), T::iter(item)); }
                    unreachable!()
                }
                "flatten" => { let mut c = mk(recv); c.ads.push((Ad::FlatMap, pq!(|__fx| __fx))); return L::C(c); }
                "into_iter" | "by_ref" | "fuse" => return L::C(mk(recv)),
                "collect" => {
                    let mut want = exp.unwrap_or(T::Unk);
                    if let Some(t) = &turbofish { if let Some(GenericArgument::Type(t)) = t.args.first() { want = self.ix.ty(t); } }
                    let c = mk(recv);
                    self.out_hint = hint;
                    return match want.name() {
                        "Vec" | "" => {
                            if c.ads.is_empty() { let s = c.src; return L::E(pq!(#s.v_collect_vec()), T::vec(c.item)); }
                            let (e, t) = self.materialize(c, Sink::Collect, None); L::E(e, t)
                        }
                        "VSet" => { let (e, _) = self.force_viter(c); L::E(pq!(VSet::v_from_iter(#e)), want) }
                        "VMap" => { let (e, _) = self.force_viter(c); L::E(pq!(VMap::v_from_iter(#e)), want) }
                        "String" => { let (e, _) = self.force_viter(c); L::E(pq!(v_collect_string(#e)), want) }
                        "Result" => {
                            let (e, t) = self.materialize(c, Sink::TryCollect(direct), None);
                            match want.arg(0).name() {
                                "Vec" | "" => L::E(e, t),
                                w @ ("VSet" | "VMap") => { let w = format_ident!("{}", w); L::E(ex(quote!(match #e { Ok(__c) => Ok(#w::v_from_iter(__c)), Err(__e) => Err(__e) })), T::res(want.arg(0))) }
                                w => { self.fail(format!("collect into Result of {w}")); L::E(e, t) }
                            }
                        }
                        _ => { self.fail(format!("collect into {}", want.name())); let (e, t) = self.materialize(c, Sink::Collect, None); L::E(e, t) }
                    };
                }
                "fold" => { let c = mk(recv); let cl = self.closure(args[1].clone(), 2); let (e, t) = self.materialize(c, Sink::Fold(args[0].clone(), cl), None); return L::E(e, t); }
                "reduce" => { let c = mk(recv); let cl = self.closure(args[0].clone(), 2); let (e, t) = self.materialize(c, Sink::Reduce(cl), None); return L::E(e, t); }
                "any" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::Any(args[0].clone()), None); return L::E(e, t); }
                "all" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::All(args[0].clone()), None); return L::E(e, t); }
                "find" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::Find(args[0].clone()), None); return L::E(e, t); }
                "find_map" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::FindMap(args[0].clone()), None); return L::E(e, t); }
                "position" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::Position(args[0].clone()), None); return L::E(e, t); }
                "count" => { let c = mk(recv); let (e, t) = self.materialize(c, Sink::Count, None); return L::E(e, t); }
                "for_each" => { let c = mk(recv); let cl = self.closure(args[0].clone(), 1); let p = cl.inputs[0].clone(); let b = *cl.body; let blk: Block = parse_quote!({ #b; }); let (e, t) = self.materialize(c, Sink::Body(p, blk), None); return L::E(e, t); }
                _ => {
                    let c = mk(recv);
                    let item = c.item.clone();
                    let noads = c.ads.is_empty();
                    let (e, t) = self.force_viter(c);
                    let a = self.es(args);
                    let id = renamed(&name).unwrap_or(m.method.clone());
                    let it = if noads { item } else { t.arg(0) };
                    let rt = match name.as_str() { "next" | "nth" | "last" => T::opt(it), "take" | "skip" | "rev" | "chain" => T::iter(it), "cloned" | "copied" => T::iter(it.peel().clone()), "enumerate" => T::iter(T::Tup(vec![T::Int, it])), "zip" => T::iter(T::Unk), _ => T::Unk };
                    return L::E(pq!(#e.#id(#(#a),*)), rt);
                }
            }
        }
        let (mut r, rt) = match recv { L::E(e, t) => (e, t), L::C(_) => unreachable!() };
        let kind = match (rt.name(), name.as_str()) { ("Option", _) => "O", ("Result", _) => "R", ("", "map_err") => "R", ("", "ok_or_else") => "O", _ => "" };
        // --- Option / Result combinators
        if !kind.is_empty() {
            // a by-value method on a reference to an Option copies it
            if matches!(rt, T::Ref(_)) && matches!(name.as_str(), "map" | "and_then" | "filter" | "unwrap_or_else" | "or_else" | "ok_or_else" | "ok_or" | "is_some_and" | "is_none_or" | "map_or" | "map_or_else" | "unwrap_or" | "context" | "with_context" | "unwrap" | "expect" | "or" | "and" | "zip" | "xor" | "unwrap_or_default" | "copied" | "flatten") { r = pq!((*#r)); }
            let inner = rt.arg(0);
            let v = self.fresh("o");
            let vx: Expr = pq!(#v);
            let some = if kind == "O" { quote!(Some) } else { quote!(Ok) };
            macro_rules! clo { ($i:expr, $n:expr) => {{ self.closure(args[$i].clone(), $n) }} }
            match (kind, name.as_str()) {
                ("O", "map") => { let c = clo!(0, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => Some(#b), None => None })), T::opt(t)); }
                ("O", "and_then") => { let c = clo!(0, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => #b, None => None })), t); }
                ("O", "filter") => { let c = clo!(0, 1); let (b, _) = self.apply(c, vec![(pq!(& #v), inner.clone())]); return L::E(ex(quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })), T::opt(inner)); }
                ("O", "unwrap_or_else") => { let c = clo!(0, 0); let (b, _) = self.apply(c, vec![]); return L::E(ex(quote!(match #r { Some(#v) => #v, None => #b })), inner); }
                ("O", "or_else") => { let c = clo!(0, 0); let (b, _) = self.apply(c, vec![]); return L::E(ex(quote!(match #r { Some(#v) => Some(#v), None => #b })), rt.clone()); }
                ("O", "ok_or_else") => { let c = clo!(0, 0); let (b, _) = self.apply(c, vec![]); return L::E(ex(quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })), T::res(inner)); }
                ("O", "ok_or") => { let b = self.e(args[0].clone()).0; return L::E(ex(quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })), T::res(inner)); }
                ("O", "is_some_and") => { let c = clo!(0, 1); let (b, _) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => #b, None => false })), T::Bool); }
                ("O", "is_none_or") => { let c = clo!(0, 1); let (b, _) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => #b, None => true })), T::Bool); }
                ("O", "map_or") => { let d = self.e(args[0].clone()).0; let c = clo!(1, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => #b, None => #d })), t); }
                ("O", "map_or_else") => { let c0 = clo!(0, 0); let (d, _) = self.apply(c0, vec![]); let c = clo!(1, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Some(#v) => #b, None => #d })), t); }
                ("O", "unwrap_or") => { let b = self.e(args[0].clone()).0; return L::E(ex(quote!(match #r { Some(#v) => #v, None => #b })), inner); }
                ("R", "map") => { let c = clo!(0, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); let e = self.fresh("e"); return L::E(ex(quote!(match #r { Ok(#v) => Ok(#b), Err(#e) => Err(#e) })), T::res(t)); }
                ("R", "and_then") => { let c = clo!(0, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); let e = self.fresh("e"); return L::E(ex(quote!(match #r { Ok(#v) => #b, Err(#e) => Err(#e) })), t); }
                ("R", "map_err") => { let c = clo!(0, 1); let e = self.fresh("e"); let (b, _) = self.apply(c, vec![(pq!(#e), T::N("Error".into(), vec![]))]); return L::E(ex(quote!(match #r { Ok(#v) => Ok(#v), Err(#e) => Err(v_any_error(#b)) })), T::res(inner)); }
                ("R", "unwrap_or_else") => { let c = clo!(0, 1); let e = self.fresh("e"); let (b, _) = self.apply(c, vec![(pq!(#e), T::N("Error".into(), vec![]))]); return L::E(ex(quote!(match #r { Ok(#v) => #v, Err(#e) => #b })), inner); }
                ("R", "unwrap_or") => { let b = self.e(args[0].clone()).0; return L::E(ex(quote!(match #r { Ok(#v) => #v, Err(_) => #b })), inner); }
                ("R", "is_ok_and") => { let c = clo!(0, 1); let (b, _) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Ok(#v) => #b, Err(_) => false })), T::Bool); }
                ("R", "or_else") => { let c = clo!(0, 1); let e = self.fresh("e"); let (b, _) = self.apply(c, vec![(pq!(#e), T::N("Error".into(), vec![]))]); return L::E(ex(quote!(match #r { Ok(#v) => Ok(#v), Err(#e) => #b })), T::res(inner)); }
                ("R", "context") | ("R", "with_context") => return L::E(ex(quote!(match #r { #some(#v) => Ok(#v), Err(_) => Err(v_error()) })), T::res(inner)),
                ("O", "context") | ("O", "with_context") => return L::E(ex(quote!(match #r { #some(#v) => Ok(#v), None => Err(v_error()) })), T::res(inner)),
                ("R", "ok") => return L::E(pq!(#r.ok()), T::opt(inner)),
                ("R", "err") => return L::E(pq!(#r.err()), T::Unk),
                (_, "is_some") | (_, "is_none") | (_, "is_ok") | (_, "is_err") => { let id = &m.method; return L::E(pq!(#r.#id()), T::Bool); }
                (_, "unwrap") | (_, "expect") => return L::E(pq!(#r.unwrap()), inner),
                ("O", "as_ref") => return L::E(pq!(#r.as_ref()), T::opt(if matches!(inner, T::Ref(_)) { inner } else { T::Ref(Box::new(inner)) })),
                ("O", "cloned") | ("O", "copied") => return L::E(ex(quote!(match #r { Some(#v) => Some(VClone::v_clone(#v)), None => None })), T::opt(inner.peel().clone())),
                ("O", "as_deref") => return L::E(ex(quote!(match & #r { Some(#v) => Some(#v.as_str()), None => None })), T::opt(T::Str)),
                ("O", "take") => return L::E(pq!(#r.take()), rt.clone()),
                ("O", "clone") | ("R", "clone") => {}
                ("O", "or") => { let b = self.e(args[0].clone()).0; return L::E(ex(quote!(match #r { Some(#v) => Some(#v), None => #b })), rt.clone()); }
                ("O", "and") => { let (b, bt) = self.e(args[0].clone()); return L::E(ex(quote!(match #r { Some(_) => #b, None => None })), bt); }
                ("O", "flatten") => return L::E(ex(quote!(match #r { Some(#v) => #v, None => None })), inner),
                ("O", "zip") => { let (b, bt) = self.e(args[0].clone()); let w = self.fresh("o"); return L::E(ex(quote!(match (#r, #b) { (Some(#v), Some(#w)) => Some((#v, #w)), _ => None })), T::opt(T::Tup(vec![inner, bt.arg(0)]))); }
                ("O", "xor") => { let (b, _) = self.e(args[0].clone()); let w = self.fresh("o"); return L::E(ex(quote!(match (#r, #b) { (Some(#v), None) => Some(#v), (None, Some(#w)) => Some(#w), _ => None })), rt.clone()); }
                ("O", "transpose") => { let e = self.fresh("e"); return L::E(ex(quote!(match #r { None => Ok(None), Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#e)) => Err(#e) })), T::res(T::opt(inner.arg(0)))); }
                ("R", "transpose") => { let e = self.fresh("e"); return L::E(ex(quote!(match #r { Ok(None) => None, Ok(Some(#v)) => Some(Ok(#v)), Err(#e) => Some(Err(#e)) })), T::opt(T::res(inner.arg(0)))); }
                ("O", "iter") => return L::E(pq!(v_opt_iter(& #r)), T::iter(T::Ref(Box::new(inner)))),
                ("O", "into_iter") => return L::E(pq!(VIntoIter::v_into_iter(#r)), T::iter(inner)),
                ("O", "unwrap_or_default") => return L::E(ex(quote!(match #r { Some(#v) => #v, None => VDefault::v_default() })), inner),
                ("R", "unwrap_or_default") => return L::E(ex(quote!(match #r { Ok(#v) => #v, Err(_) => VDefault::v_default() })), inner),
                ("R", "map_or") => { let d = self.e(args[0].clone()).0; let c = clo!(1, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Ok(#v) => #b, Err(_) => #d })), t); }
                ("R", "map_or_else") => { let c0 = clo!(0, 1); let e = self.fresh("e"); let (d, _) = self.apply(c0, vec![(pq!(#e), T::N("Error".into(), vec![]))]); let c = clo!(1, 1); let (b, t) = self.apply(c, vec![(vx, inner)]); return L::E(ex(quote!(match #r { Ok(#v) => #b, Err(#e) => #d })), t); }
                ("R", "and") => { let (b, bt) = self.e(args[0].clone()); let e = self.fresh("e"); return L::E(ex(quote!(match #r { Ok(_) => #b, Err(#e) => Err(#e) })), bt); }
                ("R", "iter") | ("R", "into_iter") => { self.fail(format!("Result::{name}")); }
                ("O", "insert") | ("O", "replace") | ("O", "get_or_insert_with") | ("O", "get_or_insert") => { self.fail(format!("Option::{name}")); }
                _ => {}
            }
        } else if matches!(name.as_str(), "map" | "and_then" | "filter_map" | "flat_map" | "unwrap_or_else" | "map_or" | "filter" | "is_some_and") && args.iter().any(|a| matches!(a, Expr::Closure(_) | Expr::Path(_))) {
            self.fail(format!("cannot type the receiver of .{name}()"));
        }
        if name == "then" && args.len() == 1 && matches!(rt, T::Bool | T::Unk) { let c = self.closure(args[0].clone(), 0); let (b, t) = self.apply(c, vec![]); return L::E(ex(quote!(if #r { Some(#b) } else { None })), T::opt(t)); }
        if name == "then_some" && args.len() == 1 { let (b, t) = self.e(args[0].clone()); let v = self.fresh("t"); let w = self.fresh("t"); return L::E(ex(quote!({ let #v = #r; let #w = #b; if #v { Some(#w) } else { None } })), T::opt(t)); }
        if name == "entry" && args.len() == 1 { let (k, _) = self.e(args[0].clone()); return L::E(pq!(#r.v_entry(#k)), T::N("VEntry".into(), vec![rt.arg(1)])); }
        if rt.name() == "VEntry" {
            let v = rt.arg(0);
            if let Expr::MethodCall(m) = &r { if m.method == "v_entry" {
                let (mp, k) = (m.receiver.clone(), m.args[0].clone());
                match name.as_str() {
                    "or_default" => return L::E(pq!(#mp.v_entry_or_default(#k)), v),
                    "or_insert" => { let (d, _) = self.e(args[0].clone()); return L::E(pq!(#mp.v_entry_or_insert(#k, #d)), v); }
                    "or_insert_with" => { let c = self.closure(args[0].clone(), 0); let (d, _) = self.apply(c, vec![]); return L::E(pq!(#mp.v_entry_or_insert(#k, #d)), v); }
                    _ => {}
                }
            } }
            self.fail("entry");
        }
        if name == "expect" { return L::E(pq!(#r.unwrap()), T::Unk); }
        // --- Deref newtypes
        if let Some(fld) = self.ix.deref.get(rt.name()) {
            if !self.ix.fns.contains_key(&format!("{}::{}", rt.name(), name)) && !matches!(name.as_str(), "clone" | "to_owned" | "to_string" | "into" | "try_into" | "deref" | "into_iter") {
                let mem: Member = if let Ok(i) = fld.parse::<u32>() { Member::Unnamed(syn::Index { index: i, span: proc_macro2::Span::call_site() }) } else { Member::Named(format_ident!("{}", fld)) };
                r = pq!(#r.#mem);
                let inner = self.ix.field(&rt, fld);
                return self.plain_method(r, inner, name, m.method, args, turbofish, recv_src, ctx);
            }
        }
        self.plain_method(r, rt, name, m.method, args, turbofish, recv_src, ctx)
    }
    fn plain_method(&mut self, r: Expr, rt: T, name: String, mid: Ident, args: Vec<Expr>, turbofish: Option<AngleBracketedGenericArguments>, recv_src: Expr, ctx: u8) -> L {
        // repository helper without a contract: inline
        let hid = format!("{}::{}", rt.name(), name);
        if let Some(f) = self.ix.fns.get(&hid).cloned() {
            self.calls.insert(hid.clone());
            if !self.known.contains(&hid) && !f.is_trait_impl { self.exit_ctx = ctx; let x = self.inline(&f, Some(recv_src.clone()), args.clone()); self.exit_ctx = 0; if let Some(x) = x { return x; } }
        }
        // a default method of a trait that nothing overrides, called on an implementor
        if let Some(ids) = self.ix.by_name.get(&name).cloned() {
            if ids.len() == 1 && !self.known.contains(&ids[0]) && (rt.name() == "Self" || rt.name().len() == 1) && !hid.is_empty() {
                if let Some(f) = self.ix.fns.get(&ids[0]).cloned() {
                    if f.is_trait_impl && f.block.is_some() && !f.id.starts_with('<') {
                        self.calls.insert(f.id.clone());
                        self.exit_ctx = ctx; let x = self.inline(&f, Some(recv_src), args.clone()); self.exit_ctx = 0; if let Some(x) = x { return x; }
                    }
                }
            }
        }
        let t: T = match name.as_str() {
            _ if self.ix.method_ret(&rt, &name).is_some() && !matches!(name.as_str(), "clone" | "to_string" | "next" | "get" | "eq" | "fmt") && !(name == "contains" && rt.name() == "VSet") => self.ix.method_ret(&rt, &name).unwrap(),
            "clone" | "to_owned" => match rt.peel() { T::Str => T::string(), T::Slice(t) => T::vec((**t).clone()), t => t.clone() },
            "to_vec" => T::vec(rt.arg(0)),
            "as_bytes" | "as_slice" => T::Ref(Box::new(T::Slice(Box::new(T::Int)))),
            "iter" => match rt.peel() { T::N(n, a) if n == "VMap" => T::iter(T::Tup(a.iter().map(|x| T::Ref(Box::new(x.clone()))).collect())), T::N(n, a) if n == "BTreeSet" || n == "VSet" => T::iter(T::Ref(Box::new(a.get(0).cloned().unwrap_or(T::Unk)))), t => T::iter(T::Ref(Box::new(t.arg(0)))) },
            "into_iter" => match &rt { T::Ref(_) => T::iter(T::Ref(Box::new(rt.arg(0)))), _ => T::iter(rt.arg(0)) },
            "keys" => T::iter(T::Ref(Box::new(rt.arg(0)))), "values" => T::iter(T::Ref(Box::new(rt.arg(1)))),
            "split" | "rsplit" | "splitn" => T::iter(T::Ref(Box::new(T::Str))),
            "chars" | "bytes" | "char_indices" | "chunks" | "windows" => T::iter(T::Int),
            "get" | "get_mut" => T::opt(if rt.name() == "VMap" { rt.arg(1) } else { rt.arg(0) }),
            "first" | "last" | "pop" | "remove" => T::opt(rt.arg(0)),
            "strip_prefix" | "strip_suffix" | "as_object" | "as_array" | "as_str" if rt.peel() != &T::Unk || name != "as_str" => match (name.as_str(), rt.name()) {
                ("as_str", "Value") => T::opt(T::Str), ("as_str", _) => T::Ref(Box::new(T::Str)),
                ("as_object", _) => T::opt(T::N("VMap".into(), vec![T::string(), T::N("Value".into(), vec![])])),
                ("as_array", _) => T::opt(T::vec(T::N("Value".into(), vec![]))),
                _ => T::opt(rt.peel().clone()) },
            "trim" | "trim_start" | "trim_end" | "trim_matches" | "trim_start_matches" | "trim_end_matches" => T::Ref(Box::new(T::Str)),
            "find" | "rfind" => T::opt(T::Int),
            "split_first" | "split_last" => T::opt(T::Tup(vec![T::Ref(Box::new(rt.arg(0))), T::Ref(Box::new(T::Slice(Box::new(rt.arg(0)))))])),
            "checked_add" | "checked_sub" => T::opt(T::Int),
            "split_once" | "rsplit_once" => T::opt(T::Tup(vec![T::Str, T::Str])),
            "len" | "saturating_add" | "saturating_sub" | "wrapping_add" => T::Int,
            "is_empty" | "starts_with" | "ends_with" | "contains" | "contains_key" | "is_object" | "is_subset" | "is_superset" | "eq_ignore_ascii_case" => T::Bool,
            "to_string" | "join" | "concat" | "into_string" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "replace" => if name == "concat" && matches!(rt.arg(0).peel(), T::Int) { T::vec(T::Int) } else { T::string() },
            "decode" | "encode" | "try_into" | "into_vec" | "parse" | "lock" => T::res(T::Unk),
            "as_ref" => rt.clone(),
            "path" | "scheme" => T::Ref(Box::new(T::Str)),
            "host_str" => T::opt(T::Str),
            _ => T::Unk,
        };
        if name == "get" { if let Some(Expr::Range(rg)) = args.first() {
            let lo: Expr = match &rg.start { Some(x) => self.e((**x).clone()).0, None => pq!(0usize) };
            let t = T::opt(T::Ref(Box::new(T::Slice(Box::new(T::Int)))));
            if matches!(rg.limits, RangeLimits::Closed(_)) { self.fail("inclusive range"); }
            return match &rg.end { Some(x) => { let h = self.e((**x).clone()).0; L::E(pq!(#r.v_get_range(#lo, #h)), t) } None => L::E(pq!(#r.v_get_from(#lo)), t) };
        } }
        if name == "parse" && !self.ix.fns.contains_key(&format!("{}::parse", rt.name())) && args.is_empty() {
            if let Some(t) = &turbofish { if let Some(GenericArgument::Type(t)) = t.args.first() { let it = self.ix.ty(t); let t = self.ty(t); return L::E(pq!(<#t as VFromStr>::v_from_str(#r.as_str())), T::res(it)); } }
            return L::E(pq!(VFromStr::v_from_str(#r.as_str())), T::res(T::Unk));
        }
        let special = match (rt.name(), name.as_str()) { ("String", "push") => Some("v_push_char"), ("String", "clear") => Some("v_clear_str"), ("Vec", "insert") => Some("v_insert_at"), ("Vec", "remove") => Some("v_remove_at"), (_, "sort_unstable") => Some("v_sort"), _ => None };
        if let Some(sp) = special { let id = format_ident!("{}", sp); let a = self.es(args); let t = if sp == "v_remove_at" { rt.arg(0) } else { T::Unit }; return L::E(pq!(#r.#id(#(#a),*)), t); }
        if name == "extend" {
            let c = self.chain_of(args[0].clone());
            let (x, _) = self.force_viter(c);
            return L::E(pq!(#r.v_extend(#x)), T::Unit);
        }
        // a lock in a function that may change its receiver hands out the locked value itself
        if name == "lock" && args.is_empty() { return if self.mut_self { L::E(pq!(v_lock_mut(&mut #r)), T::res(rt.peel().clone().arg(0))) } else { L::E(pq!(v_lock(&#r)), T::res(rt.peel().clone().arg(0))) }; }
        if name == "into_iter" { return L::E(pq!(VIntoIter::v_into_iter(#r)), t); }
        let a = self.es(args);
        let id = renamed(&name).unwrap_or(mid);
        let tf = match turbofish { Some(mut t) => { for x in t.args.iter_mut() { if let GenericArgument::Type(t) = x { *t = self.ty(&t.clone()); } } quote!(#t) } None => quote!() };
        L::E(ex(quote!(#r.#id #tf (#(#a),*))), t)
    }
}
/// the (short) string literals of a body, directly or through a constant
fn str_lits(ts: TokenStream, ix: &SrcIndex, out: &mut BTreeSet<String>) {
    for t in ts { match t {
        TokenTree::Literal(l) => { let s = l.to_string(); if s.starts_with('"') && s.len() <= 50 { out.insert(s); } }
        TokenTree::Ident(i) => { if let Some(c) = ix.consts.get(&i.to_string()) { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr { out.insert(s.token().to_string()); } } }
        TokenTree::Group(g) => str_lits(g.stream(), ix, out),
        _ => {}
    } }
}
pub fn sub_word(t: &str, a: &str, b: &str) -> String {
    let (mut out, mut w) = (String::new(), String::new());
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue; }
        out.push_str(if w == a { b } else { &w }); w.clear();
        if c != '\0' { out.push(c); }
    }
    out
}
fn contains_word(t: &str, a: &str) -> bool { t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == a) }
/// the list a loop's body pushes to, when there is one push; the pushed value gets a name where the annotations need it
fn accumulator(b: &mut Block, y: &str, name_it: bool) -> Option<String> {
    struct V { n: usize, x: Option<String> }
    impl<'a> visit::Visit<'a> for V { fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if m.method == "push" || m.method == "insert" || m.method == "extend" { self.n += 1; if let Expr::Path(p) = &*m.receiver { self.x = p.path.get_ident().map(|i| i.to_string()); } } visit::visit_expr_method_call(self, m); } }
    let mut v = V { n: 0, x: None }; visit::Visit::visit_block(&mut v, b);
    if v.n != 1 { return None; }
    if name_it {
        struct M(Ident);
        impl visit_mut::VisitMut for M { fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                if let Stmt::Expr(Expr::MethodCall(m), _) = &mut s { if (m.method == "push" || m.method == "extend") && m.args.len() == 1 { let a = m.args[0].clone(); let y = &self.0; out.push(parse_quote!(let #y = #a;)); m.args[0] = parse_quote!(#y); } }
                out.push(s);
            }
            b.stmts = out;
        } }
        visit_mut::VisitMut::visit_block_mut(&mut M(format_ident!("{}", y)), b);
    }
    v.x
}
/// a call, awaited or in parentheses
fn call_like(e: &Expr) -> bool { match e { Expr::Await(a) => call_like(&a.base), Expr::Paren(p) => call_like(&p.expr), Expr::Call(_) | Expr::MethodCall(_) => true, _ => false } }
pub fn idents(ts: TokenStream, f: &mut impl FnMut(String)) { for t in ts { match t { TokenTree::Ident(i) => f(i.to_string()), TokenTree::Group(g) => idents(g.stream(), f), _ => {} } } }
/// names bound inside an expression
fn body_names(e: &Expr, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'a, 'b> visit::Visit<'a> for V<'b> { fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()); } }
    visit::Visit::visit_expr(&mut V(out), e);
}
fn brace(e: Expr) -> TokenStream { match e { Expr::Block(_) | Expr::If(_) => e.to_token_stream(), e => quote!({ #e }) } }
fn ex_block(ts: TokenStream) -> Expr { let v: Vec<TokenTree> = ts.clone().into_iter().collect(); if v.len() == 1 { Expr::Verbatim(ts) } else { Expr::Verbatim(quote!({ #ts })) } }
fn has_break(b: &Block) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} }
    let mut v = V(false); visit::Visit::visit_block(&mut v, b); v.0
}
pub fn pat_names(p: &Pat, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'a, 'b> visit::Visit<'a> for V<'b> { fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()); } }
    visit::Visit::visit_pat(&mut V(out), p);
}
fn subst_self(b: Block, id: &Ident) -> Block {
    struct V(Ident);
    impl visit_mut::VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident("self") { *p = Path::from(self.0.clone()); } visit_mut::visit_path_mut(self, p); }
        fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = sub_ts(m.tokens.clone(), &self.0); }
    }
    fn sub_ts(ts: TokenStream, id: &Ident) -> TokenStream { ts.into_iter().map(|t| match t { TokenTree::Ident(i) if i == "self" => TokenTree::Ident(id.clone()), TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub_ts(g.stream(), id))), t => t }).collect() }
    let mut b = b; visit_mut::VisitMut::visit_block_mut(&mut V(id.clone()), &mut b); b
}
pub fn contains_ident(ts: &TokenStream, n: &str) -> bool {
    ts.clone().into_iter().any(|t| match t { TokenTree::Ident(i) => i == n, TokenTree::Group(g) => contains_ident(&g.stream(), n), _ => false })
}

/// argument text of a message macro without a partial operation
fn benign_ts(ts: &TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    v.iter().enumerate().all(|(i, t)| match t {
        TokenTree::Ident(x) => !matches!(x.to_string().as_str(), "unwrap" | "expect" | "panic" | "unwrap_err"),
        TokenTree::Punct(p) => !matches!(p.as_char(), '?' | '/' | '%' | '+' | '-' | '*'),
        TokenTree::Group(g) => !(g.delimiter() == proc_macro2::Delimiter::Bracket && i > 0 && matches!(v[i - 1], TokenTree::Ident(_) | TokenTree::Group(_))) && benign_ts(&g.stream()),
        _ => true,
    })
}
/// an expression made of lengths and literals
fn is_capacity(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(p) => p.path.segments.len() == 1 || p.path.segments[0].ident.to_string().chars().all(|c| c.is_uppercase() || c == '_'),
        Expr::Paren(p) => is_capacity(&p.expr),
        Expr::Reference(r) => is_capacity(&r.expr),
        Expr::Field(f) => is_capacity(&f.base),
        Expr::MethodCall(m) => (m.method == "len" || m.method == "as_bytes") && m.args.is_empty() && is_capacity(&m.receiver),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) && is_capacity(&b.left) && is_capacity(&b.right),
        _ => false,
    }
}
/// the types of the fields that locals are moved into by a struct literal
fn field_hints(b: &Block, ix: &SrcIndex, me: &str) -> HashMap<String, Type> {
    struct V<'b> { ix: &'b SrcIndex, me: String, m: HashMap<String, Type> }
    impl<'a, 'b> visit::Visit<'a> for V<'b> { fn visit_expr_struct(&mut self, e: &'a ExprStruct) {
        let mut n = e.path.segments.last().unwrap().ident.to_string(); if n == "Self" { n = self.me.clone(); }
        if let Some((s, _)) = self.ix.structs.get(&n) { if s.generics.params.is_empty() {
            for f in &e.fields { if let (Expr::Path(p), Member::Named(m)) = (&f.expr, &f.member) { if let Some(x) = p.path.get_ident() {
                if let Some(d) = s.fields.iter().find(|d| d.ident.as_ref() == Some(m)) { self.m.insert(x.to_string(), d.ty.clone()); } } } } } }
        visit::visit_expr_struct(self, e);
    } }
    let mut v = V { ix, me: me.to_string(), m: HashMap::new() };
    visit::Visit::visit_block(&mut v, b);
    v.m
}
pub fn rename_ident(ts: TokenStream, a: &Ident, b: &Ident) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == *a => TokenTree::Ident(b.clone()),
        TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), rename_ident(g.stream(), a, b)); h.set_span(g.span()); TokenTree::Group(h) }
        t => t,
    }).collect()
}
