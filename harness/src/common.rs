//! Deterministic generators and independent re-statements ("oracles") of what the code must do.
#![allow(dead_code)]
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use base64::Engine;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Cursor;
use ucan::crypto::KeyMaterial;
use ucan::store::{UcanStore, UcanStoreConditionalSend};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}
pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    let mut n = 0u64;
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
        n += 1;
        if n > 1_000_000 { panic!("future never completes"); }
        std::thread::yield_now();
    }
}

pub fn b64(b: &[u8]) -> String { base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b) }
/// canonical DAG-JSON, written independently of the code under test
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let s: BTreeMap<&String, &Value> = m.iter().collect();
            format!("{{{}}}", s.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), canon(v))).collect::<Vec<_>>().join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        x => serde_json::to_string(x).unwrap(),
    }
}

// ---------------- toy keys ----------------
#[derive(Clone, Debug, PartialEq)]
pub struct Toy { pub id: Vec<u8>, pub kind: u8, pub private: bool, pub nodid: bool }
pub const TOY_A: &[u8] = &[0xaa, 0x01];
pub const TOY_B: &[u8] = &[0xbb, 0x02];
impl Toy {
    pub fn new(kind: u8, id: &[u8]) -> Toy { Toy { id: id.to_vec(), kind, private: true, nodid: false } }
    pub fn alg(&self) -> &'static str { if self.kind == 0 { "EdDSA" } else { "ES256" } }
    pub fn prefix(&self) -> &'static [u8] { if self.kind == 0 { TOY_A } else { TOY_B } }
    pub fn did(&self) -> String { format!("did:key:z{}", bs58::encode([self.prefix(), &self.id].concat()).into_string()) }
    pub fn sig(&self, payload: &[u8]) -> Vec<u8> {
        let mut b = vec![self.kind]; b.extend((self.id.len() as u32).to_be_bytes()); b.extend(&self.id); b.extend(payload);
        Code::Blake3_256.digest(&b).digest().to_vec()
    }
}
#[async_trait]
impl KeyMaterial for Toy {
    fn get_jwt_algorithm_name(&self) -> String { self.alg().to_string() }
    async fn get_did(&self) -> Result<String> { if self.nodid { Err(anyhow!("no did")) } else { Ok(self.did()) } }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> { if self.private { Ok(self.sig(payload)) } else { Err(anyhow!("no private key")) } }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> { if self.sig(payload) == signature { Ok(()) } else { Err(anyhow!("bad signature")) } }
}
/// the constructors refuse identifiers that start with 0xff
pub fn toy_a(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { if b.first() == Some(&0xff) { return Err(anyhow!("refused")); } Ok(Box::new(Toy { id: b, kind: 0, private: false, nodid: false })) }
pub fn toy_b(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { if b.first() == Some(&0xff) { return Err(anyhow!("refused")); } Ok(Box::new(Toy { id: b, kind: 1, private: false, nodid: false })) }
pub const CTORS: &[(&[u8], fn(Vec<u8>) -> Result<Box<dyn KeyMaterial>>)] = &[(TOY_A, toy_a), (TOY_B, toy_b)];
pub fn parser() -> ucan::crypto::did::DidParser { ucan::crypto::did::DidParser::new(CTORS) }
/// the toy key a DID denotes
pub fn resolve(did: &str) -> Option<Toy> {
    let b = bs58::decode(did.strip_prefix("did:key:z")?).into_vec().ok()?;
    if b.len() < 2 { return None; }
    let kind = match &b[..2] { [0xaa, 0x01] => 0, [0xbb, 0x02] => 1, _ => return None };
    if b.get(2) == Some(&0xff) { return None; }
    Some(Toy { id: b[2..].to_vec(), kind, private: false, nodid: false })
}

// ---------------- tokens ----------------
#[derive(Clone, Debug)]
pub struct Tok {
    pub alg: String, pub typ: String, pub ucv: String, pub iss: String, pub aud: String,
    pub exp: Option<u64>, pub nbf: Option<u64>, pub nnc: Option<String>,
    pub cap: Value, pub fct: Option<Map<String, Value>>, pub prf: Option<Vec<String>>,
    pub signer: Toy,
    /// 0: honest signature; otherwise a corruption
    pub bad_sig: u8,
}
impl Tok {
    pub fn new(signer: &Toy, aud: &str) -> Tok {
        Tok { alg: signer.alg().into(), typ: "JWT".into(), ucv: "0.10.0-canary".into(), iss: signer.did(), aud: aud.into(), exp: None, nbf: None, nnc: None, cap: serde_json::json!({}), fct: None, prf: None, signer: signer.clone(), bad_sig: 0 }
    }
    pub fn slash(&self) -> bool { has_slash(&self.payload()) }
    pub fn header(&self) -> Value { serde_json::json!({"alg": self.alg, "typ": self.typ}) }
    pub fn payload(&self) -> Value {
        let mut m = Map::new();
        m.insert("ucv".into(), self.ucv.clone().into()); m.insert("iss".into(), self.iss.clone().into()); m.insert("aud".into(), self.aud.clone().into());
        m.insert("exp".into(), self.exp.map(Value::from).unwrap_or(Value::Null));
        if let Some(n) = self.nbf { m.insert("nbf".into(), n.into()); }
        if let Some(n) = &self.nnc { m.insert("nnc".into(), n.clone().into()); }
        m.insert("cap".into(), self.cap.clone());
        if let Some(f) = &self.fct { m.insert("fct".into(), Value::Object(f.clone())); }
        if let Some(p) = &self.prf { m.insert("prf".into(), p.clone().into()); }
        Value::Object(m)
    }
    pub fn signed(&self) -> String { format!("{}.{}", b64(canon(&self.header()).as_bytes()), b64(canon(&self.payload()).as_bytes())) }
    pub fn sig(&self) -> Vec<u8> {
        let d = self.signed();
        let mut s = self.signer.sig(d.as_bytes());
        match self.bad_sig { 1 => s[0] ^= 1, 2 => { s.pop(); } 3 => s.push(0), 4 => s.clear(), 5 => { let n = s.len(); s[n - 1] ^= 0x80; } 6 => s = self.signer.sig(self.signed().split('.').next().unwrap().as_bytes()), _ => {} }
        s
    }
    pub fn text(&self) -> String { format!("{}.{}", self.signed(), b64(&self.sig())) }
    pub fn in_window(&self, t: u64) -> bool { self.exp.map_or(true, |e| e >= t) && self.nbf.map_or(true, |n| n <= t) }
    pub fn sig_valid(&self) -> bool { match resolve(&self.iss) { Some(k) => k.sig(self.signed().as_bytes()) == self.sig(), None => false } }
    pub fn caps(&self) -> Vec<(String, String, Value)> {
        let mut out = vec![];
        if let Value::Object(m) = &self.cap {
            let m: BTreeMap<_, _> = m.iter().collect();
            for (r, a) in m { if let Value::Object(a) = a { let a: BTreeMap<_, _> = a.iter().collect(); for (k, c) in a { if let Value::Array(c) = c { for c in c { out.push((r.clone(), k.clone(), c.clone())); } } } } }
        }
        out
    }
}
pub fn cid_of(text: &[u8]) -> Cid { Cid::new_v1(0x55, Code::Blake3_256.digest(text)) }

// ---------------- a store that returns whatever it was told to ----------------
#[derive(Clone, Default, Debug)]
pub struct MapStore { pub m: HashMap<Cid, Vec<u8>>, pub fail: BTreeSet<Cid> }
#[async_trait]
impl UcanStore<RawCodec> for MapStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        if self.fail.contains(cid) { return Err(anyhow!("read failure")); }
        Ok(match self.m.get(cid) { Some(b) => Some(T::decode(RawCodec, &mut Cursor::new(b))?), None => None })
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        let mut b = vec![]; token.encode(RawCodec, &mut b)?;
        let c = cid_of(&b); self.m.insert(c, b); Ok(c)
    }
}

// ---------------- random JSON ----------------
pub fn rjson(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null, 1 => Value::Bool(r.chance(1, 2)), 2 => if r.chance(1, 8) { r.pick(&[Value::from(i64::MIN), Value::from(1.5), Value::from(-0.1), Value::from(1e300)]).clone() } else { Value::from(r.below(5) as i64 - 2) }, 3 => Value::from(*r.pick(&[0u64, 1, u32::MAX as u64, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX])),
        4 | 5 => Value::String(rstr(r)),
        6 => Value::Array((0..r.below(4)).map(|_| rjson(r, depth - 1)).collect()),
        _ => Value::Object(robj(r, depth - 1)),
    }
}
pub fn robj(r: &mut Rng, depth: usize) -> Map<String, Value> { let n = r.below(4); (0..n).map(|_| (rkey(r), rjson(r, depth))).collect() }
pub fn rkey(r: &mut Rng) -> String { r.pick(&["a", "b", "c", "", "é", "a b", "\"q", "zz", "prf", "d/e", "A", "/"]).to_string() }
/// a map with the key "/" may be one that DAG-JSON reserves for links and bytes
pub fn has_slash(v: &Value) -> bool { match v { Value::Array(a) => a.iter().any(has_slash), Value::Object(m) => m.iter().any(|(k, v)| k == "/" || has_slash(v)), _ => false } }
pub fn rstr(r: &mut Rng) -> String { r.pick(&["", "a", "b", "true", "0", "é∂", "x.y", "did:key:z", "line\nbreak", "\u{0}", "*", "long long long long long text", "\\", "/"]).to_string() }
pub fn rdid(r: &mut Rng) -> String { let k = r.below(2) as u8; let n = r.below(4); let id = r.bytes(n); Toy::new(k, &id).did() }

// ---------------- test semantics ----------------
use ucan::capability::{Ability, CapabilitySemantics, Scope};
use url::Url;
/// scopes are paths; a path contains itself and everything below it
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Sc { pub scheme: Option<String>, pub path: String }
impl Scope for Sc { fn contains(&self, o: &Sc) -> bool { self.scheme == o.scheme && (o.path == self.path || o.path.starts_with(&format!("{}/", self.path))) } }
impl ToString for Sc { fn to_string(&self) -> String { match &self.scheme { Some(s) => format!("{}:{}", s, self.path), None => self.path.clone() } } }
impl TryFrom<Url> for Sc { type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Sc> { if u.path().contains('!') || u.path().is_empty() { return Err(anyhow!("bad scope")); } let full = u.as_str()[u.scheme().len() + 1..].to_string(); match u.scheme() { "my" => Ok(Sc { scheme: None, path: full }), "t" | "x" => Ok(Sc { scheme: Some(u.scheme().into()), path: full }), _ => Err(anyhow!("unknown scheme")) } } }
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ab { Read, Write, All }
impl Ability for Ab {}
impl ToString for Ab { fn to_string(&self) -> String { match self { Ab::Read => "c/read", Ab::Write => "c/write", Ab::All => "c/*" }.into() } }
impl TryFrom<String> for Ab { type Error = anyhow::Error; fn try_from(s: String) -> Result<Ab> { Ok(match s.as_str() { "c/read" => Ab::Read, "c/write" => Ab::Write, "c/*" => Ab::All, _ => return Err(anyhow!("bad ability")) }) } }
pub struct Sem;
impl CapabilitySemantics<Sc, Ab> for Sem {}

// the same semantics restated
#[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord)]
pub enum Kind { Plain, My, As(String) }
#[derive(Clone, PartialEq, Debug)]
pub struct OCap { pub kind: Kind, pub scope: Option<Sc>, pub ab: Ab, pub cav: Value }
pub fn o_scope(u: &Url) -> Option<Sc> { Sc::try_from(u.clone()).ok() }
pub fn o_parse(res: &str, ab: &str, cav: Option<&Value>) -> Option<OCap> {
    let u = Url::parse(res).ok()?;
    let kindscope = |u: &Url| -> Option<Option<Sc>> { if u.path() == "*" { Some(None) } else { o_scope(u).map(Some) } };
    let (kind, scope) = match u.scheme() {
        "my" => (Kind::My, kindscope(&u)?),
        "as" => {
            let rest = u.as_str().strip_prefix("as:did:key:")?;
            let (k, rest) = match rest.find(':') { Some(i) => (&rest[..i], &rest[i + 1..]), None => (rest, "") };
            let sc = if rest == "*" { None } else { kindscope(&Url::parse(rest).ok()?)? };
            (Kind::As(format!("did:key:{k}")), sc)
        }
        _ => (Kind::Plain, kindscope(&u)?),
    };
    Some(OCap { kind, scope, ab: Ab::try_from(ab.to_string()).ok()?, cav: cav.cloned().unwrap_or_else(|| serde_json::json!({})) })
}
pub fn o_cav(a: &Value, b: &Value) -> bool { match (a, b) { (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, v)| b.get(k) == Some(v)), _ => false } }
pub fn o_enables(a: &OCap, b: &OCap) -> bool {
    a.kind == b.kind && match (&a.scope, &b.scope) { (None, _) => true, (Some(x), Some(y)) => x.contains(y), _ => false } && a.ab >= b.ab && o_cav(&a.cav, &b.cav)
}
use ucan::capability::{CapabilityView, Resource, ResourceUri};
pub fn view_to_o(v: &CapabilityView<Sc, Ab>) -> OCap {
    let f = |k: &ResourceUri<Sc>| match k { ResourceUri::Scoped(s) => Some(s.clone()), ResourceUri::Unscoped => None };
    let (kind, scope) = match &v.resource { Resource::Resource { kind } => (Kind::Plain, f(kind)), Resource::My { kind } => (Kind::My, f(kind)), Resource::As { did, kind } => (Kind::As(did.clone()), f(kind)) };
    OCap { kind, scope, ab: v.ability.clone(), cav: v.caveat.clone() }
}
pub fn o_to_view(o: &OCap) -> CapabilityView<Sc, Ab> {
    let k = match &o.scope { Some(s) => ResourceUri::Scoped(s.clone()), None => ResourceUri::Unscoped };
    let resource = match &o.kind { Kind::Plain => Resource::Resource { kind: k }, Kind::My => Resource::My { kind: k }, Kind::As(d) => Resource::As { did: d.clone(), kind: k } };
    CapabilityView::new_with_caveat(resource, o.ab.clone(), o.cav.clone())
}

// ---------------- chains ----------------
#[derive(Clone, Debug)]
pub struct OChain { pub tok: Tok, pub text: String, pub proofs: Vec<OChain>, pub redel: BTreeSet<usize> }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why { NotAToken, Window, Signature, BadCid, Missing, Audience, Lifetime, BadIndex }
/// what building a chain from a text must give
pub struct World { pub toks: HashMap<String, Tok>, pub store: MapStore }
impl World {
    pub fn chain(&self, text: &str, t: u64) -> std::result::Result<OChain, Why> {
        let tok = self.toks.get(text).ok_or(Why::NotAToken)?;
        if !tok.in_window(t) { return Err(Why::Window); }
        if !tok.sig_valid() { return Err(Why::Signature); }
        let mut proofs = vec![];
        for c in tok.prf.iter().flatten() {
            let cid: Cid = c.parse().map_err(|_| Why::BadCid)?;
            if cid.codec() != 0x55 { return Err(Why::BadCid); }
            if self.store.fail.contains(&cid) { return Err(Why::Missing); }
            let b = self.store.m.get(&cid).ok_or(Why::Missing)?;
            let p = self.chain(std::str::from_utf8(b).map_err(|_| Why::NotAToken)?, t)?;
            if p.tok.aud != tok.iss { return Err(Why::Audience); }
            let nb = match (p.tok.nbf, tok.nbf) { (None, _) => true, (Some(_), None) => false, (Some(a), Some(b)) => a <= b };
            let ex = match (p.tok.exp, tok.exp) { (None, _) => true, (Some(_), None) => false, (Some(a), Some(b)) => a >= b };
            if !(nb && ex) { return Err(Why::Lifetime); }
            proofs.push(p);
        }
        let mut redel = BTreeSet::new();
        for (r, a, _) in tok.caps() {
            if a != "ucan/DELEGATE" { continue; }
            if let Ok(u) = Url::parse(&r) { if u.scheme() == "prf" {
                let sel = &u.as_str()["prf:".len()..]; if sel == "*" { redel.extend(0..proofs.len()); }
                else if let Ok(n) = sel.parse::<usize>() { if n >= proofs.len() { return Err(Why::BadIndex); } redel.insert(n); }
            } }
        }
        Ok(OChain { tok: tok.clone(), text: text.into(), proofs, redel })
    }
}
#[derive(Clone, Debug)]
pub struct OInfo { pub cap: OCap, pub orig: BTreeSet<String>, pub nbf: Option<u64>, pub exp: Option<u64> }
impl OChain {
    /// capabilities recognised in the token
    pub fn claimed(&self) -> Vec<OCap> { self.tok.caps().iter().filter_map(|(r, a, c)| o_parse(r, a, Some(c))).collect() }
    pub fn report(&self) -> Vec<OInfo> {
        let mut anc: Vec<OInfo> = vec![]; let mut red: Vec<OInfo> = vec![];
        for (i, p) in self.proofs.iter().enumerate() { let rp = p.report(); if self.redel.contains(&i) { red.extend(rp); } else { anc.extend(rp); } }
        let mut all: Vec<OInfo> = vec![];
        for c in self.claimed() {
            let mut o: BTreeSet<String> = anc.iter().filter(|i| o_enables(&i.cap, &c)).flat_map(|i| i.orig.clone()).collect();
            if o.is_empty() { o.insert(self.tok.iss.clone()); }
            all.push(OInfo { cap: c, orig: o, nbf: self.tok.nbf, exp: self.tok.exp });
        }
        all.extend(red.into_iter().map(|mut i| { i.nbf = self.tok.nbf; i.exp = self.tok.exp; i }));
        let mut out: Vec<OInfo> = vec![];
        for i in all { match out.iter_mut().find(|o| o.cap == i.cap) { Some(o) => o.orig.extend(i.orig), None => out.push(i) } }
        out
    }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a OChain>) { out.push(self); for p in &self.proofs { p.walk(out); } }
}

pub struct WorldOpts { pub faults: bool, pub prf_claims: u64, pub caps: bool, pub t: u64 }
/// a random world; returns the world and the texts, last one the root
pub fn gen_world(r: &mut Rng, o: &WorldOpts) -> (World, Vec<String>) {
    let mut w = World { toks: HashMap::new(), store: MapStore::default() };
    let keys: Vec<Toy> = (0..3 + r.below(3)).map(|i| Toy::new((i % 2) as u8, &[i as u8, r.next() as u8 & 0x7f])).collect();
    let levels = 1 + r.below(3);
    let mut prev: Vec<String> = vec![]; // texts of the level below
    let mut order = vec![];
    for l in 0..=levels {
        let count = if l == levels { 1 } else { 1 + r.below(3) };
        let mut cur = vec![];
        for _ in 0..count {
            // the issuer: an audience of some proof below
            let cand: Vec<String> = prev.clone();
            let signer = if cand.is_empty() { r.pick(&keys).clone() } else { let a = w.toks[r.pick(&cand)].aud.clone(); keys.iter().find(|k| k.did() == a).cloned().unwrap_or(keys[0].clone()) };
            let aud = if l == levels { r.pick(&keys).did() } else { keys[r.below(2)].did() };
            let mut t = Tok::new(&signer, &aud);
            let f = o.faults && r.chance(1, 6);
            // proofs
            let mut prf = vec![]; let mut exps: Vec<u64> = vec![]; let mut nbfs: Vec<u64> = vec![];
            let mine: Vec<&String> = cand.iter().filter(|c| w.toks[*c].aud == t.iss).collect();
            if !mine.is_empty() && !r.chance(1, 10) {
                for _ in 0..1 + r.below(3) { let c = (*r.pick(&mine)).clone(); let x = &w.toks[&c]; if let Some(e) = x.exp { exps.push(e); } if let Some(n) = x.nbf { nbfs.push(n); } prf.push(c); }
            }
            // window, nested by default, on and around the validation time
            t.exp = match exps.iter().min() { Some(m) => Some(if r.chance(1, 3) { *m } else { o.t + r.below((*m - o.t.min(*m)) as usize % 5 + 1) as u64 }.min(*m)), None => if r.chance(1, 3) { None } else { Some(match r.below(8) { 0 => u64::MAX, 1 => u64::MAX - 1, _ => o.t + *r.pick(&[0u64, 1, 2, 5, 100]) }) } };
            t.nbf = match nbfs.iter().max() { Some(m) => Some(if r.chance(1, 4) { *m } else { (*m).max(o.t - r.below(2) as u64).min(o.t.max(*m)) }), None => if r.chance(1, 3) { None } else { Some(match r.below(8) { 0 | 1 => 0, 2 => 1, _ => o.t - *r.pick(&[0u64, 1, 2, 5, 100]) }) } };
            if f { match r.below(9) {
                0 => t.exp = Some(o.t - 1 - r.below(3) as u64), 1 => t.nbf = Some(o.t + 1 + r.below(3) as u64), 2 => t.bad_sig = 1 + r.below(6) as u8,
                3 => t.exp = None, 4 => t.nbf = None, 5 => t.exp = t.exp.map(|e| e.saturating_add(1)), 6 => t.nbf = t.nbf.map(|n| n.saturating_sub(1)),
                7 => t.iss = r.pick(&["did:key:z", "did:web:x", "", "did:key:zzzz0", "did:key:z6Mk"]).to_string(),
                _ => t.iss = r.pick(&keys).did(),
            } }
            let mut cids: Vec<String> = prf.iter().map(|p| cid_of(p.as_bytes()).to_string()).collect();
            if f && r.chance(1, 2) { match r.below(7) {
                0 => cids.push("notacid".into()), 1 => cids.push(cid_of(b"absent").to_string()), 2 => cids.push(Cid::new_v1(0x71, Code::Blake3_256.digest(b"x")).to_string()),
                3 => { let junk = b"not.a.token".to_vec(); let c = cid_of(&junk); w.store.m.insert(c, junk); cids.insert(0, c.to_string()); }
                4 => if let Some(p) = order.get(r.below(order.len().max(1))) { let p: &String = p; cids.push(cid_of(p.as_bytes()).to_string()) },
                5 => { let junk = vec![0xff, 0xfe]; let c = cid_of(&junk); w.store.m.insert(c, junk); cids.push(c.to_string()); }
                _ => { cids.reverse(); }
            } }
            // a CID may resolve to any token the store chooses
            if o.faults && r.chance(1, 12) && !order.is_empty() { let c = Cid::new_v1(0x55, Code::Sha2_256.digest(&r.bytes(4))); let p: &String = r.pick(&order); w.store.m.insert(c, p.clone().into_bytes()); let at = r.below(cids.len() + 1); cids.insert(at, c.to_string()); }
            let n = cids.len();
            t.prf = if cids.is_empty() { if r.chance(1, 4) { Some(vec![]) } else { None } } else { Some(cids) };
            // capabilities
            let mut m = Map::new();
            let mut add = |r: &str, a: &str, c: Value| { m.entry(r.to_string()).or_insert_with(|| Value::Object(Map::new())).as_object_mut().unwrap().entry(a.to_string()).or_insert_with(|| Value::Array(vec![])).as_array_mut().unwrap().push(c); };
            if o.caps { for _ in 0..r.below(5) {
                let res = *r.pick(&["t:a", "t:a", "t:a/b", "t:b", "x:a", "t:*", "my:a", "my:*", "as:did:key:zAA:t:a", "as:did:key:zBB:t:a", "as:did:key:zAA:*", "http://unknown/", "nourl", "t:bad!", "prf:0x", "aa:first", "zz:last"]);
                let ab = *r.pick(&["c/read", "c/read", "c/write", "c/*", "c/unknown", "ucan/DELEGATE"]);
                if res.starts_with("prf") && ab == "ucan/DELEGATE" { continue; }
                let cav = match r.below(6) { 0 => serde_json::json!({"k":1}), 1 => serde_json::json!({"k":1,"l":"x"}), 2 => serde_json::json!({"k":2}), _ => serde_json::json!({}) };
                add(res, ab, cav);
            } }
            if r.chance(o.prf_claims, 12) {
                for _ in 0..1 + r.below(2) {
                    let res = match r.below(12) { 0..=4 => format!("prf:{}", r.below(n.max(1))), 5 | 6 => "prf:*".into(), 7 => if o.faults { format!("prf:{}", n + r.below(2)) } else { format!("prf:{}", n.saturating_sub(1)) }, 8 => "prf:-1".into(), 9 => "my:*".into(), 10 => r.pick(&["prf:0/0", "prf:*?x", "prf:0#y", "prf:0?x"]).to_string(), _ => "t:0".into() };
                    if n == 0 && res.starts_with("prf:") && res != "prf:*" && !o.faults { continue; }
                    let ab = if r.chance(1, 8) { "ucan/delegate" } else { "ucan/DELEGATE" };
                    add(&res, ab, serde_json::json!({}));
                }
            }
            t.cap = Value::Object(m);
            let text = t.text();
            if r.chance(1, 40) && o.faults { w.store.fail.insert(cid_of(text.as_bytes())); }
            else if !(o.faults && r.chance(1, 30)) { w.store.m.insert(cid_of(text.as_bytes()), text.clone().into_bytes()); }
            w.toks.insert(text.clone(), t);
            cur.push(text.clone()); order.push(text);
        }
        prev = if r.chance(3, 4) { cur } else { prev.into_iter().chain(cur).collect() };
    }
    (w, order)
}
/// long and wide chains; the root's text and what was broken, if anything
pub fn gen_big(r: &mut Rng, t: u64, fault: bool, caps: bool) -> (World, String, String) {
    let mut w = World { toks: HashMap::new(), store: MapStore::default() };
    let deep = *r.pick(&[2usize, 3, 4, 5, 8, 9, 16, 17, 33, 40]);
    let wide = *r.pick(&[1usize, 1, 1, 2, 3, 10, 11, 17, 40]);
    let wide_at = r.below(deep);
    let bad_at = 1 + r.below(deep); let bad_kind = r.below(8); let mut what = String::from("nothing");
    let key = |i: usize| Toy::new((i % 2) as u8, &[(i % 7) as u8, i as u8]);
    let (exp, nbf) = (if r.chance(1, 3) { None } else { Some(t + 1000) }, if r.chance(1, 3) { None } else { Some(t - 1000) });
    let mut prev: Option<String> = None;
    for d in (0..=deep).rev() {
        // d == 0 is the root
        let me = key(d);
        let aud = if d == 0 { key(99).did() } else { key(d - 1).did() };
        let n = if d == wide_at + 1 { wide } else { 1 };
        let mut texts: Vec<String> = vec![];
        for j in 0..n {
            let k = if j == 0 || d != deep { me.clone() } else { key(50 + j) };
            let mut x = Tok::new(&k, &aud); x.exp = exp; x.nbf = nbf; x.nnc = Some(format!("{d}.{j}"));
            if caps { let mut m = Map::new(); m.insert(r.pick(&["t:a", "t:a", "t:a/b", "t:b"]).to_string(), serde_json::json!({ *r.pick(&["c/read", "c/*"]): [{}] }));
                let np = prev.as_deref().map_or(0, |p| p.split('\n').count());
                for _ in 0..r.below(3) { if np > 0 { m.insert(if r.chance(1, 6) { "prf:*".into() } else { format!("prf:{}", r.below(np)) }, serde_json::json!({"ucan/DELEGATE": [{}]})); } }
                x.cap = Value::Object(m); }
            if let Some(p) = &prev { x.prf = Some(w.level(p)); }
            if fault && d == bad_at && j == n - 1 {
                what = format!("fault {bad_kind} in proof {j} at depth {d} of {deep}");
                match bad_kind { 0 => x.bad_sig = 1, 1 => x.exp = Some(t - 1), 2 => x.nbf = Some(t + 1), 3 => x.aud = key(98).did(), 4 => x.exp = exp.map(|e| e - 1).or(Some(t + 1)), 5 => x.nbf = nbf.map(|n| n + 1).or(Some(t)), _ => {} }
            }
            let text = x.text();
            if fault && d == bad_at && j == n - 1 && bad_kind == 6 {} else { w.store.m.insert(cid_of(text.as_bytes()), text.clone().into_bytes()); }
            w.toks.insert(text.clone(), x);
            texts.push(text);
        }
        let joined = texts.join("\n");
        prev = Some(joined);
    }
    let root = prev.unwrap();
    (w, root, what)
}
impl World { fn level(&self, p: &str) -> Vec<String> { p.split('\n').map(|t| cid_of(t.as_bytes()).to_string()).collect() } }
