//! Source index: structs, enums, consts, functions of the repository.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T { Unk, Int, Bool, Str, Unit, N(String, Vec<T>), Ref(Box<T>), Tup(Vec<T>), Slice(Box<T>) }
impl T {
    pub fn peel(&self) -> &T { match self { T::Ref(t) => t.peel(), t => t } }
    pub fn name(&self) -> &str { match self.peel() { T::N(n, _) => n, _ => "" } }
    pub fn arg(&self, i: usize) -> T { match self.peel() { T::N(_, a) => a.get(i).cloned().unwrap_or(T::Unk), T::Slice(t) => (**t).clone(), _ => T::Unk } }
    pub fn opt(t: T) -> T { T::N("Option".into(), vec![t]) }
    pub fn res(t: T) -> T { T::N("Result".into(), vec![t]) }
    pub fn vec(t: T) -> T { T::N("Vec".into(), vec![t]) }
    pub fn iter(t: T) -> T { T::N("VIter".into(), vec![t]) }
    pub fn string() -> T { T::N("String".into(), vec![]) }
}

#[derive(Clone)]
pub struct FnInfo {
    pub id: String,
    pub file: String,
    pub line: usize,
    pub end_line: usize,
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub sig: Signature,
    pub block: Option<Block>,
    pub is_trait_impl: bool,
}
#[derive(Default)]
pub struct SrcIndex {
    pub structs: BTreeMap<String, (ItemStruct, String)>,
    pub enums: BTreeMap<String, (ItemEnum, String)>,
    pub types: BTreeMap<String, ItemType>,
    pub consts: BTreeMap<String, ItemConst>,
    pub fns: BTreeMap<String, FnInfo>,
    pub by_name: BTreeMap<String, Vec<String>>,
    pub deref: BTreeMap<String, String>,
}

pub fn strip_lt(ts: proc_macro2::TokenStream) -> String {
    // canonical text of a type without lifetimes
    let s = ts.to_string();
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' { i += 1; while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1; } if i < cs.len() && cs[i] == ' ' { i += 1; } if i < cs.len() && cs[i]==',' { i += 1; } continue; }
        if cs[i] != ' ' || (out.ends_with("dyn") || out.ends_with("mut")) { out.push(cs[i]); }
        i += 1;
    }
    out.replace("<>", "").replace(":<", "<")
}
fn cfg_skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && {
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || (s.contains("wasm32") && !s.contains("not(target_arch=\"wasm32\")"))
            || (s.contains("feature=") )
    })
}

impl SrcIndex {
    pub fn add_file(&mut self, path: &str, src: &str) -> Result<()> {
        let f = parse_file(src)?;
        self.items(path, f.items);
        Ok(())
    }
    fn items(&mut self, path: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Struct(s) => { if !cfg_skip(&s.attrs) { self.structs.insert(s.ident.to_string(), (s, path.into())); } }
                Item::Enum(s) => { if !cfg_skip(&s.attrs) { self.enums.insert(s.ident.to_string(), (s, path.into())); } }
                Item::Type(s) => { if !cfg_skip(&s.attrs) { self.types.insert(s.ident.to_string(), s); } }
                Item::Const(s) => { if !cfg_skip(&s.attrs) { self.consts.insert(s.ident.to_string(), s); } }
                Item::Mod(m) => { if !cfg_skip(&m.attrs) { if let Some((_, its)) = m.content { self.items(path, its); } } }
                Item::Fn(f) => { if !cfg_skip(&f.attrs) {
                    let id = f.sig.ident.to_string();
                    self.add(FnInfo { id, file: path.into(), line: f.sig.ident.span().start().line, end_line: f.block.brace_token.span.close().end().line, self_ty: None, impl_generics: Generics::default(), sig: f.sig, block: Some(*f.block), is_trait_impl: false });
                } }
                Item::Impl(im) => { if cfg_skip(&im.attrs) { continue; }
                    let ty = strip_lt(im.self_ty.to_token_stream());
                    let base = match ty.find('<') { Some(i) if !ty.starts_with('<') && im.trait_.is_none() => ty[..i].to_string(), _ => ty.clone() };
                    let tr = im.trait_.as_ref().map(|t| strip_lt(t.1.to_token_stream()));
                    for ii in &im.items { if let ImplItem::Fn(f) = ii {
                        if cfg_skip(&f.attrs) { continue; }
                        let id = match &tr { Some(t) => format!("<{} as {}>::{}", ty, t, f.sig.ident), None => format!("{}::{}", base, f.sig.ident) };
                        if tr.as_deref() == Some("Deref") && f.sig.ident == "deref" {
                            let b = f.block.to_token_stream().to_string().replace(' ', "");
                            if b == "{&self.0}" { self.deref.insert(ty.clone(), "0".into()); }
                        }
                        self.add(FnInfo { id, file: path.into(), line: f.sig.ident.span().start().line, end_line: f.block.brace_token.span.close().end().line, self_ty: Some((*im.self_ty).clone()), impl_generics: im.generics.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), is_trait_impl: tr.is_some() });
                    } }
                }
                Item::Trait(t) => { if cfg_skip(&t.attrs) { continue; }
                    for ti in &t.items { if let TraitItem::Fn(f) = ti {
                        let id = format!("{}::{}", t.ident, f.sig.ident);
                        let self_ty: Type = parse_str("Self").unwrap();
                        let end = f.default.as_ref().map(|b| b.brace_token.span.close().end().line).unwrap_or(f.sig.ident.span().end().line);
                        self.add(FnInfo { id, file: path.into(), line: f.sig.ident.span().start().line, end_line: end, self_ty: Some(self_ty), impl_generics: t.generics.clone(), sig: f.sig.clone(), block: f.default.clone(), is_trait_impl: true });
                    } }
                }
                _ => {}
            }
        }
    }
    fn add(&mut self, f: FnInfo) {
        self.by_name.entry(f.sig.ident.to_string()).or_default().push(f.id.clone());
        self.fns.insert(f.id.clone(), f);
    }
    pub fn ty(&self, t: &Type) -> T {
        match t {
            Type::Reference(r) => T::Ref(Box::new(self.ty(&r.elem))),
            Type::Tuple(t) if t.elems.is_empty() => T::Unit,
            Type::Tuple(t) => T::Tup(t.elems.iter().map(|x| self.ty(x)).collect()),
            Type::Slice(s) => T::Slice(Box::new(self.ty(&s.elem))),
            Type::Array(s) => T::Slice(Box::new(self.ty(&s.elem))),
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::Path(p) => {
                let seg = p.path.segments.last().unwrap();
                let n = seg.ident.to_string();
                let mut args = vec![];
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    for x in &a.args { if let GenericArgument::Type(t) = x { args.push(self.ty(t)); } }
                }
                match n.as_str() {
                    "u64" | "usize" | "u8" | "u32" | "i64" | "u16" | "i32" | "u128" => T::Int,
                    "bool" => T::Bool, "str" => T::Str,
                    "FlatMap" => T::iter(T::Unk),
                    "BTreeMap" | "HashMap" | "Map" | "VMap" => T::N("VMap".into(), args),
                    "BTreeSet" | "HashSet" | "VSet" => T::N("VSet".into(), args),
                    "Box" | "Arc" => args.into_iter().next().unwrap_or(T::Unk),
                    _ => if let Some(a) = self.types.get(&n) {
                        if a.ty.to_token_stream().to_string().contains("FlatMap") { T::iter(T::N("Capability".into(), vec![])) }
                        else if a.generics.type_params().count() > 0 {
                            // e.g. MapImpl<K, V>
                            match self.ty(&a.ty) { T::N(b, _) => T::N(b, args), x => x }
                        } else { self.ty(&a.ty) } }
                        else { T::N(n, args) }
                }
            }
            _ => T::Unk,
        }
    }
    pub fn field(&self, t: &T, f: &str) -> T {
        let n = t.name();
        let look = |s: &ItemStruct| -> Option<T> {
            for (i, fd) in s.fields.iter().enumerate() {
                let nm = fd.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                if nm == f { return Some(self.ty(&fd.ty)); }
            }
            None
        };
        if let Some((s, _)) = self.structs.get(n) { if let Some(t) = look(s) { return t; } }
        if let T::Tup(v) = t.peel() { if let Ok(i) = f.parse::<usize>() { return v.get(i).cloned().unwrap_or(T::Unk); } }
        if f.parse::<usize>().is_err() {
            let c: Vec<T> = self.structs.values().filter_map(|(s, _)| look(s)).collect();
            if !c.is_empty() && c.iter().all(|x| *x == c[0]) { return c[0].clone(); }
        }
        T::Unk
    }
    pub fn ret(&self, f: &FnInfo) -> T {
        let t = match &f.sig.output { ReturnType::Default => T::Unit, ReturnType::Type(_, t) => self.ty(t) };
        fn sub(t: T, s: &T) -> T { match t {
            T::N(n, _) if n == "Self" => s.clone(),
            T::N(n, a) => T::N(n, a.into_iter().map(|x| sub(x, s)).collect()),
            T::Ref(b) => T::Ref(Box::new(sub(*b, s))), t => t } }
        match &f.self_ty { Some(s) => { let s = self.ty(s); if s.name() == "Self" { t } else { sub(t, &s) } } None => t }
    }
    /// return type of a method call by receiver type and name, if the repository defines it
    pub fn method_ret(&self, recv: &T, name: &str) -> Option<T> {
        let ids = self.by_name.get(name)?;
        let rn = recv.name();
        if !rn.is_empty() {
            if let Some(f) = self.fns.get(&format!("{rn}::{name}")) { return Some(self.ret(f)); }
        }
        let c: Vec<T> = ids.iter().map(|i| self.ret(&self.fns[i])).collect();
        if c.iter().all(|x| *x == c[0]) { return Some(c[0].clone()); }
        None
    }
}
