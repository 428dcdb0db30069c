//! Capabilities, encodings, builder, store, keys: C09 - C21.
use crate::common::*;
use crate::props1::{ensure, R};
use crate::tag;
use base64::Engine;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::ipld::Ipld;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::str::FromStr;
use ucan::builder::UcanBuilder;
use ucan::capability::{Capabilities, Capability, CapabilitySemantics, Caveat};
use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
use ucan::ipld::{Principle, Signature, UcanIpld};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::Ucan;

fn es<E: std::fmt::Display>(e: E) -> String { e.to_string() }
fn r_ocap(r: &mut Rng) -> OCap {
    let kind = match r.below(4) { 0 => Kind::Plain, 1 => Kind::My, _ => Kind::As(r.pick(&["did:key:zA", "did:key:zA", "did:key:zB", "did:key:za", "did:key:ZA", "DID:key:zA", "did:key:zA ", "did:key:zAB", "did:key:zA#x", "did:key:z", "did:web:A", "did:key:zA/"]).to_string()) };
    let scope = if r.chance(1, 4) { None } else { Some(Sc { scheme: if kind == Kind::My { None } else { Some(r.pick(&["t", "x"]).to_string()) }, path: r.pick(&["a", "a", "a/b", "b", "ab", "a/b/c", "A", "a/", "a?q", "a#f"]).to_string() }) };
    let cav = match r.below(8) { 0 => rjson(r, 1), 1 => json!({"k":1}), 2 => json!({"k":1,"l":null}), 3 => json!({"k":{"n":[1]}}), 4 => json!({"l":null}), 5 => r.pick(&[json!({"k":1.0}), json!({"k":"1"}), json!({"K":1}), json!({"k":true}), json!({"k":{}}), json!({"k":{"n":[1,2]}}), json!({"k":{"n":[1],"m":0}}), json!({"k":[]}), json!({"k":0}), json!({"k":""}), json!({"k":null}), json!({"":null})]).clone(), _ => json!({}) };
    OCap { kind, scope, ab: r.pick(&[Ab::Read, Ab::Write, Ab::All]).clone(), cav }
}
pub fn c09_enables(r: &mut Rng) -> R {
    let a = r_ocap(r);
    let mut b = if r.chance(1, 2) { let mut b = a.clone(); let c = r_ocap(r); match r.below(4) { 0 => b.scope = c.scope, 1 => b.ab = c.ab, 2 => b.cav = c.cav, _ => b.kind = c.kind } b } else { r_ocap(r) };
    if r.chance(1, 20) { b.cav = r.pick(&[Value::Null, json!([]), json!("x"), json!(1)]).clone(); }
    let (va, vb) = (o_to_view(&a), o_to_view(&b));
    let want = o_enables(&a, &b);
    tag(if want { "enables" } else { "does not" });
    ensure!(va.enables(&vb) == want, "enables={} expected {want}: {a:?} / {b:?}", !want);
    let rc = { let (mut x, mut y) = (a.clone(), b.clone()); x.ab = Ab::All; x.cav = json!({}); y.cav = json!({}); o_enables(&x, &y) };
    ensure!(va.resource.contains(&vb.resource) == rc, "resource containment is not {rc}: {:?} {:?} / {:?} {:?}", a.kind, a.scope, b.kind, b.scope);
    Ok(())
}
pub fn c10_caveats(r: &mut Rng) -> R {
    let v = rjson(r, 3);
    let ok = Caveat::try_from(v.clone());
    ensure!(ok.is_ok() == v.is_object(), "{v} accepted as a caveat: {}", ok.is_ok());
    ensure!(Caveat::try_from(&v).is_ok() == v.is_object(), "&{v} accepted as a caveat: {}", !v.is_object());
    let mut a = robj(r, 2); let mut b = if r.chance(1, 2) { a.clone() } else { robj(r, 2) };
    for _ in 0..r.below(3) { match r.below(4) { 0 => { b.insert(rkey(r), rjson(r, 1)); } 1 => { let k = rkey(r); b.remove(&k); } 2 => { let k = rkey(r); a.remove(&k); } _ => { let k = rkey(r); if let Some(x) = b.get_mut(&k) { *x = rjson(r, 1); } } } }
    if r.chance(1, 4) { let vs = [Value::Null, json!(0), json!(1), json!(-1), json!(1.5), json!("1"), json!(""), json!("a"), json!("A"), json!(" a"), json!(true), json!(false), json!([]), json!([1]), json!([1, 2]), json!([2, 1]), json!({}), json!({"x":1}), json!({"x":1,"y":null}), json!([{}]), json!([null])]; for k in ["k", "l"] { if r.chance(2, 3) { a.insert(k.into(), r.pick(&vs).clone()); } match r.below(3) { 0 => { b.remove(k); } 1 => { b.insert(k.into(), r.pick(&vs).clone()); } _ => { if let Some(v) = a.get(k) { b.insert(k.into(), v.clone()); } } } } }
    let (ca, cb) = (Caveat::try_from(Value::Object(a.clone())).map_err(es)?, Caveat::try_from(Value::Object(b.clone())).map_err(es)?);
    ensure!(*ca == a, "caveat changed: {a:?} became {:?}", *ca);
    let want = a.iter().all(|(k, v)| b.get(k) == Some(v));
    tag(if want { "subset" } else { "not" });
    ensure!(ca.enables(&cb) == want, "caveat {} enables {}: {}, expected {want}", Value::Object(a), Value::Object(b), !want);
    Ok(())
}
fn flat(v: &Value) -> Vec<(String, String, Value)> { Tok { cap: v.clone(), ..Tok::new(&Toy::new(0, &[0]), "") }.caps() }
fn well_formed(v: &Value) -> bool { v.as_object().map_or(false, |m| m.values().all(|a| a.as_object().map_or(false, |a| !a.is_empty() && a.values().all(|c| c.as_array().map_or(false, |c| c.iter().all(Value::is_object)))))) }
fn r_capjson(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for _ in 0..r.below(4) {
        let mut a = Map::new();
        for _ in 0..(if r.chance(1, 10) { 0 } else { 1 + r.below(3) }) {
            let list: Vec<Value> = (0..r.below(4)).map(|_| if r.chance(1, 25) { rjson(r, 1) } else { Value::Object(robj(r, 1)) }).collect();
            a.insert(r.pick(&["a/x", "b", "", "A", "é"]).to_string(), if r.chance(1, 40) { rjson(r, 1) } else { Value::Array(list) });
        }
        m.insert(r.pick(&["t:a", "my:b", "", "z:z", "Z:q", "é:"]).to_string(), if r.chance(1, 40) { rjson(r, 1) } else { Value::Object(a) });
    }
    if r.chance(1, 40) { rjson(r, 2) } else { Value::Object(m) }
}
fn check_caps(c: &Capabilities, want: &Value) -> R {
    let m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = serde_json::from_value(want.clone()).map_err(es)?;
    ensure!(**c == m, "capabilities {:?} differ from {want}", **c);
    let it: Vec<(String, String, Value)> = c.iter().map(|c| (c.resource, c.ability, c.caveat)).collect();
    ensure!(it == flat(want), "iterating {want} yields {it:?}");
    ensure!(serde_json::to_value(c).map_err(es)? == *want, "{want} serializes to {:?}", serde_json::to_value(c));
    Ok(())
}
pub fn c11_json(r: &mut Rng) -> R {
    let v = r_capjson(r);
    let want = well_formed(&v);
    tag(if want { "well formed" } else { "malformed" });
    let a = Capabilities::try_from(&v);
    ensure!(a.is_ok() == want, "try_from(&json) accepted={} for {v}", a.is_ok());
    let b = serde_json::from_value::<Capabilities>(v.clone());
    ensure!(b.is_ok() == want, "deserialization accepted={} for {v}", b.is_ok());
    let mut t = Tok::new(&Toy::new(0, &[0]), "did:key:zA"); t.cap = v.clone();
    let u = Ucan::try_from(t.text());
    ensure!(u.is_ok() == want || u.is_err() && has_slash(&v), "token accepted={} with capabilities {v}", u.is_ok());
    if want { check_caps(&a.unwrap(), &v)?; check_caps(&b.unwrap(), &v)?; if let Ok(u) = u { check_caps(u.capabilities(), &v)?; } }
    if let Ok(m) = serde_json::from_value::<BTreeMap<String, BTreeMap<String, Vec<Value>>>>(v.clone()) {
        let d = Capabilities::try_from(m); ensure!(d.is_ok() == want, "try_from(map) accepted={} for {v}", d.is_ok());
        if let Ok(d) = d { check_caps(&d, &v)?; }
    }
    Ok(())
}
pub fn c11_seq(r: &mut Rng) -> R {
    let bad = r.chance(1, 6);
    let list: Vec<Capability> = (0..r.below(7)).map(|_| Capability::new(r.pick(&["t:a", "t:b", "", "z"]).to_string(), r.pick(&["x", "y", ""]).to_string(), if bad && r.chance(1, 3) { rjson(r, 1) } else { Value::Object(robj(r, 1)) })).collect();
    let want = list.iter().all(|c| c.caveat.is_object());
    let got = Capabilities::try_from(list.clone());
    tag(if want { "accepted" } else { "refused" });
    ensure!(got.is_ok() == want, "sequence accepted={}: {list:?}", got.is_ok());
    if let Ok(c) = got {
        let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
        for x in &list { m.entry(x.resource.clone()).or_default().entry(x.ability.clone()).or_default().push(x.caveat.clone()); }
        check_caps(&c, &serde_json::to_value(&m).unwrap())?;
    }
    Ok(())
}
pub fn c11_conv(r: &mut Rng) -> R {
    let (a, b, c) = (rstr(r), rkey(r), rjson(r, 2));
    let x = Capability::new(a.clone(), b.clone(), c.clone());
    ensure!(x.resource == a && x.ability == b && x.caveat == c, "Capability::new mixes fields");
    ensure!(Capability::from(&x) == x && Capability::from((a.clone(), b.clone(), c.clone())) == x && Capability::from((a.as_str(), b.as_str(), &c)) == x && <(String, String, Value)>::from(x.clone()) == (a, b, c), "capability conversions are not faithful");
    tag("conv");
    Ok(())
}
fn r_res(r: &mut Rng) -> String {
    let did = |r: &mut Rng| r.pick(&["did:key:zA", "did:key:zB", "did:key:", "did:web:a", "did:key", "did", "key:did:x", "DID:key:z", "did:key:z6MkA"]).to_string();
    let inner = r.pick(&["t:a", "t:a/b", "t:*", "*", "x:a:b:c", "my:q", "t:", "u:a", "a", "", "t:bad!", "x:a?q=1", "x:a#f", "*?x=1", "*#f", "t:b?q=1#f", "t:a*", "http://h/p", "as:did:key:zC:t:a"]).to_string();
    match r.below(6) { 0 => format!("my:{inner}"), 1 | 2 | 3 => format!("as:{}:{inner}", did(r)), 4 => format!("as:{}", did(r)), _ => inner }
}
pub fn c12_parse(r: &mut Rng) -> R {
    let (res, ab) = (r_res(r), r.pick(&["c/read", "c/*", "c/unknown", "", "C/READ"]).to_string());
    let cav = match r.below(4) { 0 => None, 1 => Some(json!({"k": 1})), 2 => Some(json!({})), _ => Some(rjson(r, 1)) };
    let got = Sem.parse(&res, &ab, cav.as_ref()).map(|v| view_to_o(&v));
    let want = o_parse(&res, &ab, cav.as_ref());
    tag(if want.is_some() { "recognised" } else { "unrecognised" });
    ensure!(got == want, "{res} {ab} {cav:?} parses as {got:?}, expected {want:?}");
    if let Some(c) = cav { let g = Sem.parse_capability(&Capability::new(res.clone(), ab.clone(), c)).map(|v| view_to_o(&v)); ensure!(g == want, "parse_capability {res} {ab}: {g:?}, expected {want:?}"); }
    Ok(())
}
pub fn c12_print(r: &mut Rng) -> R {
    let mut c = r_ocap(r);
    // the finding listed in known_findings.json: a plain unscoped resource prints "*"; anything else it prints must parse back
    let finding = c.kind == Kind::Plain && c.scope.is_none();
    if finding && r.below(4) > 0 { c.scope = Some(Sc { scheme: Some("t".into()), path: "a".into() }); }
    let finding = finding && c.scope.is_none();
    if let Kind::As(_) = c.kind { c.kind = Kind::As(format!("did:key:z{}", r.pick(&["A", "6Mk", "B1"]))); }
    let v = o_to_view(&c);
    for cap in [Capability::from(&v), Capability::from(v.clone())] {
        tag("printed");
        ensure!(cap.caveat == c.cav && cap.ability == c.ab.to_string(), "printing {c:?} gives {cap:?}");
        let back = Sem.parse_capability(&cap).map(|v| view_to_o(&v));
        if finding && cap.resource == "*" && back.is_none() { tag("known finding"); continue; }
        ensure!(back.as_ref() == Some(&c), "{c:?} prints as {} {} which parses as {back:?}", cap.resource, cap.ability);
    }
    Ok(())
}
/// a text close to a DID
pub fn variant(r: &mut Rng, d: &str) -> String {
    let cs: Vec<char> = d.chars().collect(); let i = r.below(cs.len().max(1));
    match r.below(16) { 0 => format!("{d}#{}", d.rsplit(':').next().unwrap_or("")), 1 => format!("{d} "), 2 => format!(" {d}"), 3 => format!("{d}\n"), 4 => d.to_lowercase(), 5 => d.to_uppercase(), 6 => format!("{d}?x=1"), 7 => format!("{d}/"), 8 => format!("{d}:"), 9 => d.replacen("did:", "DID:", 1), 10 => d.replacen("did:key:z", "did:key:m", 1), 11 => d.replacen("did:key:z", "did:key:zz", 1), 12 => d.replacen("key:z", "key:z1", 1),
        13 => cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect(), 14 => cs.iter().enumerate().map(|(j, c)| if j == i { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { *c }).collect(), _ => format!("{d}1") }
}
pub fn c13_resolve(r: &mut Rng) -> R {
    let mut p = parser();
    let dids: Vec<String> = (0..5).map(|_| match r.below(10) {
        0 => format!("did:key:z{}", bs58::encode([&[0xaa][..]].concat()).into_string()),
        1 => "did:key:z".into(), 2 => { let b = r.bytes(3); format!("did:key:z{}", bs58::encode(b).into_string()) }
        3 => r.pick(&["did:key:z0", "did:key:zO0Il", "did:web:x", "", "did:key:", "z6Mk", "did:key:zé", "did:key:z "]).to_string(),
        4 => Toy::new(r.below(2) as u8, &[0xff, 0]).did(), 5 => Toy::new(r.below(2) as u8, &[]).did(),
        6 => format!("did:key:Z{}", &rdid(r)[9..]), _ => rdid(r) }).collect();
    let mut dids = dids;
    for i in 0..5 { if r.chance(2, 3) { let d = dids[i].clone(); dids.push(variant(r, &d)); } }
    { let k = r.below(2) as u8; let a = r.bytes(30); for j in 0..2 { let mut b = a.clone(); let i = if j == 0 { r.below(30) } else { 29 }; b[i] ^= 1 << r.below(8); b[0] &= 0x7f; dids.push(Toy::new(k, &b).did()); } }
    for _ in 0..10 {
        let d = r.pick(&dids);
        let want = resolve(d);
        tag(if want.is_some() { "key" } else { "none" });
        match (p.parse(d), want) {
            (Ok(k), Some(w)) => {
                let m = r.bytes(5);
                let good = w.sig(&m);
                ensure!(block_on(k.get_did()).map_err(es)? == w.did() && k.get_jwt_algorithm_name() == w.alg(), "{d} resolves to {:?}, expected {}", block_on(k.get_did()), w.did());
                ensure!(block_on(k.verify(&m, &good)).is_ok(), "the key of {d} refuses its own signature");
                ensure!(block_on(k.verify(&m, &[])).is_err(), "the key of {d} accepts an empty signature");
                ensure!(block_on(k.sign(&m)).is_err(), "the key of {d} signs without a private part");
            }
            (Err(_), None) => {}
            (Ok(k), None) => return Err(format!("{d} resolves to {:?}, expected failure", block_on(k.get_did()))),
            (Err(e), Some(_)) => return Err(format!("{d} does not resolve: {e}")),
        }
    }
    Ok(())
}
/// registering constructors: the last one given for a prefix counts
pub fn c13_ctors(r: &mut Rng) -> R {
    let mut slice = vec![]; let mut last: BTreeMap<&'static [u8], u8> = BTreeMap::new();
    for _ in 0..r.below(4) { let p = if r.chance(1, 2) { TOY_A } else { TOY_B }; let k = r.below(2) as u8; slice.push((p, if k == 0 { toy_a as fn(Vec<u8>) -> anyhow::Result<Box<dyn KeyMaterial>> } else { toy_b })); last.insert(p, k); }
    let mut p = ucan::crypto::did::DidParser::new(&slice);
    for (kind, pre) in [(0u8, TOY_A), (1, TOY_B)] {
        let d = Toy::new(kind, &[1, 2]).did();
        tag("ctor");
        match (p.parse(&d), last.get(pre)) {
            (Ok(k), Some(c)) => ensure!(k.get_jwt_algorithm_name() == Toy::new(*c, &[]).alg(), "{d} built by another constructor"),
            (Err(_), None) => {}
            (a, b) => return Err(format!("{d}: resolved={}, registered={b:?}", a.is_ok())),
        }
    }
    Ok(())
}
/// times, many of them at the edge of some number format
fn r_time(r: &mut Rng) -> u64 { match r.below(5) { 0 => *r.pick(&[0, 1, 7, 1_600_000_000, 1_700_000_000]), 1 => 1u64 << r.below(64), 2 => (1u64 << r.below(64)).wrapping_sub(1), 3 => if r.chance(1, 5) { u64::MAX } else { 0 }, _ => r.next() >> r.below(64) } }
fn r_tok(r: &mut Rng) -> Tok {
    let n = r.below(3); let id = r.bytes(n);
    let k = Toy::new(r.below(2) as u8, &id);
    let mut t = Tok::new(&k, &rdid(r));
    if r.chance(1, 2) { t.exp = Some(r_time(r)); }
    if r.chance(1, 2) { t.nbf = Some(r_time(r)); }
    if r.chance(1, 2) { t.nnc = Some(rstr(r)); }
    if r.chance(1, 2) { t.fct = Some(robj(r, 2)); }
    if r.chance(1, 2) { t.prf = Some((0..r.below(4)).map(|_| cid_of(&r.bytes(2)).to_string()).collect()); }
    for _ in 0..3 { let c = r_capjson(r); if well_formed(&c) { t.cap = c; break; } }
    t
}
fn same(u: &Ucan, t: &Tok) -> R {
    let pf = |p: &Option<Vec<String>>| p.clone();
    ensure!(u.algorithm() == t.alg, "alg {} != {}", u.algorithm(), t.alg);
    ensure!(u.issuer() == t.iss && u.audience() == t.aud, "issuer/audience {} {} != {} {}", u.issuer(), u.audience(), t.iss, t.aud);
    ensure!(*u.expires_at() == t.exp && *u.not_before() == t.nbf, "window ({:?},{:?}) != ({:?},{:?})", u.not_before(), u.expires_at(), t.nbf, t.exp);
    ensure!(*u.nonce() == t.nnc, "nonce {:?} != {:?}", u.nonce(), t.nnc);
    ensure!(pf(u.proofs()) == t.prf, "proofs {:?} != {:?}", u.proofs(), t.prf);
    let f: Option<BTreeMap<String, Value>> = t.fct.clone().map(|f| f.into_iter().collect());
    ensure!(*u.facts() == f, "facts {:?} != {f:?}", u.facts());
    ensure!(u.version() == t.ucv, "version {} != {}", u.version(), t.ucv);
    check_caps(u.capabilities(), &t.cap)
}
pub fn c14_roundtrip(r: &mut Rng) -> R {
    let t = r_tok(r);
    let text = t.text();
    for (i, u) in [Ucan::try_from(text.as_str()), Ucan::from_str(&text), Ucan::try_from(text.clone())].into_iter().enumerate() {
        if u.is_err() && t.slash() { tag("reserved"); continue; }
        let u = u.map_err(|e| format!("well-formed token refused ({i}): {e}: {text}"))?;
        tag("decoded");
        same(&u, &t)?;
        ensure!(u.signed_data() == t.signed().as_bytes(), "signed data {:?} is not the text before the last dot of {text}", String::from_utf8_lossy(u.signed_data()));
        ensure!(u.signature() == t.sig(), "signature differs");
        let e = u.encode().map_err(es)?;
        ensure!(e == text, "decoding and encoding {text} gives {e}");
        ensure!(Ucan::try_from(e.as_str()).map_err(es)? == u, "decoding twice gives different tokens");
    }
    Ok(())
}
/// the same with a JSON text that is not canonical
pub fn c14_noncanonical(r: &mut Rng) -> R {
    let t = r_tok(r);
    let mangle = |v: &Value, r: &mut Rng| -> String { match r.below(4) { 0 => serde_json::to_string_pretty(v).unwrap(), 1 => format!("  {}\n", canon(v)), 2 => { let m = v.as_object().unwrap(); format!("{{{}}}", m.iter().rev().map(|(k, v)| format!("{}: {}", serde_json::to_string(k).unwrap(), v)).collect::<Vec<_>>().join(" ,")) } _ => { let mut m = v.clone(); m.as_object_mut().unwrap().insert("zzz".into(), json!(1)); canon(&m) } } };
    let signed = format!("{}.{}", b64(mangle(&t.header(), r).as_bytes()), b64(mangle(&t.payload(), r).as_bytes()));
    let text = format!("{signed}.{}", b64(&t.sig()));
    match Ucan::try_from(text.as_str()) {
        Ok(u) => { tag("decoded"); same(&u, &t)?; ensure!(u.signed_data() == signed.as_bytes(), "signed data is not the received text"); let e = u.encode().map_err(es)?; ensure!(e == text, "re-encoding gives {e}, received {text}"); }
        Err(_) => tag("refused"),
    }
    Ok(())
}
fn strict_b64(s: &str) -> Option<Vec<u8>> {
    // unpadded base64url, decoded by hand
    let mut out = vec![]; let mut acc = 0u32; let mut n = 0;
    for c in s.bytes() { let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return None } as u32; acc = (acc << 6) | v; n += 6; if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1; } }
    if n == 6 || acc != 0 { return None; }
    Some(out)
}
pub fn c14_malformed(r: &mut Rng) -> R {
    let t = r_tok(r);
    let good = t.text();
    let parts: Vec<&str> = good.split('.').collect();
    let text = match r.below(16) {
        0 => format!("{good}."), 1 => format!("{good}.{}", b64(b"x")), 2 => format!("{good}.."), 3 => format!(".{good}"), 4 => format!("{}.{}", parts[0], parts[1]), 5 => parts[0].to_string(),
        6 => format!("{}.{}.{}=", parts[0], parts[1], parts[2]), 7 => format!("{}=.{}.{}", parts[0], parts[1], parts[2]), 8 => good.replace(['-', '_'], "+"), 9 => format!(" {good}"), 10 => format!("{good}\n"),
        11 => format!("{}.{}.{}", parts[1], parts[0], parts[2]), 12 => format!("{}.{}.", parts[0], parts[1]),
        13 => { let mut b = good.clone().into_bytes(); let i = r.below(b.len()); b[i] = *r.pick(b"A.-_=+/ "); String::from_utf8(b).unwrap() }
        14 => { let i = r.below(good.len()); good[..i].to_string() }
        _ => { let mut m = t.payload(); let k = r.pick(&["iss", "aud", "ucv", "cap"]).to_string(); if r.chance(1, 2) { m.as_object_mut().unwrap().remove(&k); } else { m.as_object_mut().unwrap().insert(k, json!(5)); } format!("{}.{}.{}", parts[0], b64(canon(&m).as_bytes()), parts[2]) }
    };
    let p: Vec<&str> = text.split('.').collect();
    let ok = p.len() == 3 && p.iter().all(|x| strict_b64(x).is_some());
    let obj = |s: &str| strict_b64(s).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    let hdr_ok = || { let h = obj(p[0])?; Some(h.get("alg")?.is_string() && h.get("typ")?.is_string()) };
    let pay_ok = || { let h = obj(p[1])?; let s = |k: &str| h.get(k).map_or(false, |v| v.is_string()); Some(s("iss") && s("aud") && s("ucv") && h.get("cap").map_or(false, well_formed)) };
    let want_possible = ok && hdr_ok() == Some(true) && pay_ok() == Some(true);
    let got = Ucan::try_from(text.as_str());
    tag(match (&got, want_possible) { (Ok(_), _) => "accepted", (Err(_), true) => "refused possible", _ => "refused" });
    if let Ok(u) = got {
        ensure!(want_possible, "malformed token accepted: {text}");
        ensure!(u.encode().map_err(es)? == text, "decoding and encoding {text} gives {:?}", u.encode());
        ensure!(u.signature() == strict_b64(p[2]).unwrap() && u.signed_data() == text[..text.rfind('.').unwrap()].as_bytes(), "parts of {text} not kept");
    } else { ensure!(text != good || t.slash(), "well-formed token refused"); }
    Ok(())
}
fn r_code(r: &mut Rng) -> Option<Code> { match r.below(4) { 0 => Some(Code::Sha2_256), 1 => Some(Code::Blake3_256), 2 => Some(Code::Blake2b256), _ => None } }
fn has_null(v: &Value) -> bool { match v { Value::Null => true, Value::Array(a) => a.iter().any(has_null), Value::Object(m) => m.values().any(has_null), _ => false } }
pub fn c15_build(r: &mut Rng) -> R {
    let nid = r.below(3); let id = r.bytes(nid);
    let mut k = Toy::new(r.below(2) as u8, &id);
    if r.chance(1, 15) { k.private = false; } if r.chance(1, 15) { k.nodid = true; }
    let mut t = Tok::new(&k, "");
    let mut b = UcanBuilder::<Toy>::default();
    let (mut issuer, mut aud, mut life, mut nonce) = (false, false, None, false);
    let mut facts = Map::new(); let mut prf: Vec<String> = vec![]; let mut caps: Vec<(String, String, Value)> = vec![];
    let mut bad = false;
    // few tokens, so that some are used more than once
    let pool: Vec<Ucan> = (0..2 + r.below(2)).filter_map(|_| Ucan::try_from(r_tok(r).text()).ok()).collect();
    let cpool: Vec<(String, String, Value)> = (0..2).map(|_| (rstr(r), rkey(r), Value::Object(robj(r, 1)))).collect();
    let tok = |r: &mut Rng| -> Option<Ucan> { if !pool.is_empty() && r.chance(2, 3) { Some(r.pick(&pool).clone()) } else { Ucan::try_from(r_tok(r).text()).ok() } };
    if !r.chance(1, 12) { b = b.issued_by(&k); issuer = true; }
    if !r.chance(1, 12) { let a = rdid(r); b = b.for_audience(&a); t.aud = a; aud = true; }
    for _ in 0..r.below(9) { match r.below(11) {
        0 => { let e = if r.chance(1, 3) { r.below(3) as u64 } else { r.next() >> 2 }; b = b.with_expiration(e); t.exp = Some(e); }
        1 => { let l = *r.pick(&[0u64, 60, 1 << 40, u64::MAX]); b = b.with_lifetime(l); life = Some(l); }
        2 => { let n = if r.chance(1, 3) { r.below(3) as u64 } else { r.next() >> 2 }; b = b.not_before(n); t.nbf = Some(n); }
        3 => { let (kk, v) = (rkey(r), rjson(r, 2)); b = b.with_fact(&kk, v.clone()); facts.insert(kk, v); }
        4 => { b = b.with_nonce(); nonce = true; }
        5 => { let c = (rstr(r), rkey(r), if r.chance(1, 20) { json!(1) } else { Value::Object(robj(r, 1)) }); let c = if r.chance(1, 3) { r.pick(&cpool).clone() } else { c }; bad |= !c.2.is_object(); b = b.claiming_capability(c.clone()); caps.push(c); }
        6 => { let cs: Vec<Capability> = (0..r.below(4)).map(|_| if r.chance(1, 3) { Capability::from(r.pick(&cpool).clone()) } else { Capability::new(rstr(r), rkey(r), Value::Object(robj(r, 1))) }).collect(); b = b.claiming_capabilities(&cs); caps.extend(cs.into_iter().map(|c| (c.resource, c.ability, c.caveat))); }
        7 => { let Some(u) = tok(r) else { continue; }; let c = r_code(r); b = b.witnessed_by(&u, c); prf.push(Cid::new_v1(0x55, c.unwrap_or(Code::Blake3_256).digest(u.encode().map_err(es)?.as_bytes())).to_string()); }
        8 | 9 => { let Some(u) = tok(r) else { continue; }; let c = r_code(r); b = b.delegating_from(&u, c); caps.push((format!("prf:{}", prf.len()), "ucan/DELEGATE".into(), json!({}))); prf.push(Cid::new_v1(0x55, c.unwrap_or(Code::Blake3_256).digest(u.encode().map_err(es)?.as_bytes())).to_string()); }
        _ => { if let Some(d) = Some(rdid(r)) { b = b.for_audience(&d); t.aud = d; aud = true; } }
    } }
    let now0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let built = b.clone().build();
    let now1 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    ensure!(built.is_ok() == (issuer && aud), "build succeeded={} with issuer={issuer} audience={aud}", built.is_ok());
    let Ok(s) = built else { tag("no build"); return Ok(()); };
    let signed = block_on(s.sign());
    let can = k.private && !k.nodid && !bad;
    // libipld cannot serialize a JSON null: signing such a token is refused
    // and neither can a map that DAG-JSON reserves be written
    let odd = |v: &Value| has_null(v) || has_slash(v);
    if signed.is_err() && can && (facts.contains_key("/") || facts.values().any(odd) || caps.iter().any(|c| c.0 == "/" || c.1 == "/" || odd(&c.2))) { tag("no sign"); return Ok(()); }
    ensure!(signed.is_ok() == can, "signing succeeded={}, expected {can}: {:?}", signed.is_ok(), signed.err());
    let Ok(u) = signed else { tag("no sign"); return Ok(()); };
    tag("signed");
    if t.exp.is_none() { if let Some(l) = life {
        let e = u.expires_at().ok_or("lifetime gives no expiration")?;
        ensure!((now0..=now1).any(|n| n.saturating_add(l) == e), "lifetime {l} at {now0}..{now1} gives expiration {e}");
        t.exp = Some(e);
    } }
    t.fct = if facts.is_empty() { None } else { Some(facts) };
    t.prf = if prf.is_empty() { None } else { Some(prf) };
    ensure!(u.nonce().is_some() == nonce, "nonce {:?}, asked {nonce}", u.nonce());
    t.nnc = u.nonce().clone();
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for (a, b, c) in &caps { m.entry(a.clone()).or_default().entry(b.clone()).or_default().push(c.clone()); }
    t.cap = serde_json::to_value(&m).unwrap();
    t.iss = k.did(); t.alg = k.alg().into(); t.signer = k.clone();
    same(&u, &t)?;
    ensure!(u.signature() == k.sig(u.signed_data()), "the signature does not cover the signed data");
    let e = u.encode().map_err(es)?;
    ensure!(e == t.text(), "the token says something else than the builder was told: {e} expected {}", t.text());
    let d = Ucan::try_from(e.as_str()).map_err(|e| format!("the built token does not decode: {e} {}", t.cap))?;
    ensure!(d == u, "decoding the built token gives another token");
    let at = t.nbf.unwrap_or(0);
    if k.id.first() != Some(&0xff) {
        let want = t.in_window(at);
        ensure!(block_on(u.validate(Some(at), &mut parser())).is_ok() == want, "built token validates={} at {at}", !want);
    }
    Ok(())
}
pub fn c16_ipld(r: &mut Rng) -> R {
    let mut t = r_tok(r);
    t.ucv = r.pick(&["0.10.0-canary", "0.9.0", "x"]).to_string();
    if r.chance(1, 4) { t.aud = r.pick(&["did:web:example.com", "did:x:é", "nodid", "did:key:zNOT0", "did:"]).to_string(); }
    if r.chance(1, 6) { t.alg = r.pick(&["ES384", "ES512", "RS256", "none", "eddsa"]).to_string(); }
    if r.chance(1, 8) { t.prf = Some(vec!["junk".into()]); }
    let Ok(u) = Ucan::try_from(t.text()) else { ensure!(t.slash(), "well-formed token refused"); tag("reserved"); return Ok(()); };
    let did_ok = |d: &str| if let Some(x) = d.strip_prefix("did:key:z") { bs58::decode(x).into_vec().map_or(false, |b| !b.starts_with(&[0x9d, 0x1a])) } else { d.starts_with("did:") };
    let alg_ok = ["EdDSA", "RS256", "ES256", "ES384", "ES512"].contains(&t.alg.as_str());
    let prf: Option<Vec<Cid>> = t.prf.iter().flatten().map(|c| c.parse().ok()).collect();
    let want = did_ok(&t.iss) && did_ok(&t.aud) && alg_ok && prf.is_some();
    let i = UcanIpld::try_from(&u);
    ensure!(i.is_ok() == want, "conversion to IPLD succeeded={}, expected {want}: {t:?} {:?}", i.is_ok(), i.err());
    let Ok(i) = i else { tag("refused"); return Ok(()); };
    tag("converted");
    ensure!(i.v == t.ucv && i.exp == t.exp && i.nbf == t.nbf && i.nnc == t.nnc && i.cap == *u.capabilities() && i.fct == *u.facts(), "IPLD form {i:?} differs from {t:?}");
    ensure!(i.iss == Principle::from_str(&t.iss).map_err(es)? && i.aud == Principle::from_str(&t.aud).map_err(es)?, "principals differ: {i:?}");
    let p = prf.unwrap();
    ensure!(i.prf == if p.is_empty() { None } else { Some(p.clone()) }, "IPLD proofs {:?} != {p:?}", i.prf);
    let (a, s) = i.s.decode().map_err(es)?;
    ensure!(a.to_string() == t.alg && s == t.sig(), "IPLD signature decodes to {a} {s:?}");
    // through an IPLD value, as a block codec would
    if t.fct.iter().flat_map(|m| m.values()).any(has_null) || has_null(&t.cap) { tag("null"); if let Ok(back) = Ucan::try_from(&i) { same(&back, &t)?; } return Ok(()); }
    let i = if r.chance(1, 2) { i } else { let x: Ipld = libipld_core::serde::to_ipld(&i).map_err(es)?; libipld_core::serde::from_ipld::<UcanIpld>(x).map_err(|e| format!("IPLD form does not read back: {e}"))? };
    let back = Ucan::try_from(&i);
    if back.is_err() && t.slash() { tag("reserved"); return Ok(()); }
    let back = back.map_err(|e| format!("conversion back failed: {e}"))?;
    let mut w = t.clone(); if w.prf.as_ref().map_or(false, |p| p.is_empty()) { w.prf = None; } else if let Some(p) = w.prf.as_mut() { for c in p { *c = c.parse::<Cid>().unwrap().to_string(); } }
    same(&back, &w)?;
    ensure!(back.signature() == t.sig(), "signature changed");
    ensure!(back.signed_data() == w.signed().as_bytes(), "signed data {} are not the canonical encoding {}", String::from_utf8_lossy(back.signed_data()), w.signed());
    if w.signed() == t.signed() { ensure!(back == u, "both conversions together changed a canonical token"); }
    Ok(())
}
fn algs() -> Vec<(JwtSignatureAlgorithm, &'static str, u64)> { use JwtSignatureAlgorithm::*; vec![(EdDSA, "EdDSA", 0xd0ed), (RS256, "RS256", 0xd01205), (ES256, "ES256", 0xd01200), (ES384, "ES384", 0xd01201), (ES512, "ES512", 0xd01202)] }
pub fn uv(mut n: u64) -> Vec<u8> { let mut v = vec![]; loop { if n < 128 { v.push(n as u8); return v; } v.push(n as u8 | 0x80); n >>= 7; } }
pub fn uv_read(b: &[u8]) -> Option<(u64, usize)> { let mut n = 0u128; for (i, x) in b.iter().enumerate().take(10) { n |= ((x & 0x7f) as u128) << (7 * i); if x & 0x80 == 0 { if *x == 0 && i > 0 { return None; } return Some((n as u64, i + 1)); /* as the unsigned-varint crate: excess bits of a tenth byte are dropped */ } } None }
pub fn c17_roundtrip(r: &mut Rng) -> R {
    let all = algs(); let i = r.below(all.len());
    let n = if r.chance(1, 200) { *r.pick(&[65535usize, 65536, 65537, 70000, 1 << 21]) } else { *r.pick(&[0usize, 1, 2, 32, 64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 16383, 16384]) }; let s = r.bytes(n);
    let (a, name, code) = all.into_iter().nth(i).unwrap();
    let e = Signature::try_from((a, &s)).map_err(es)?;
    tag("encoded");
    ensure!(e.0 == [uv(code), uv(n as u64), s.clone()].concat(), "envelope of {name} with {n} bytes is {:?}", &e.0[..e.0.len().min(12)]);
    let (d, x) = e.decode().map_err(|e| format!("own envelope does not decode: {e}"))?;
    ensure!(d.to_string() == name && x == s, "envelope decodes to {d} with {} bytes, expected {name} with {n}", x.len());
    ensure!(JwtSignatureAlgorithm::from_str(name).map(|x| x == d).unwrap_or(false), "algorithm name {name} does not parse");
    Ok(())
}
pub fn c17_decode(r: &mut Rng) -> R {
    let mut b = vec![];
    let code = match r.below(4) { 0 => r.next() >> r.below(64), 1 => *r.pick(&[0xd000u64, 0xd0e7, 0xd0ea, 0xd0eb, 0xd191]), _ => { let a = algs(); a[r.below(a.len())].2 } };
    b.extend(uv(code));
    let body = r.below(20);
    b.extend(match r.below(6) { 0 => uv(body as u64 + 1 + r.below(300) as u64), 1 => uv(r.next()), 2 => uv(body.saturating_sub(1) as u64), 3 => vec![0x80; r.below(12)], _ => uv(body as u64) });
    b.extend(r.bytes(body));
    if r.chance(1, 6) { let n = r.below(b.len() + 1); b.truncate(n); }
    if r.chance(1, 8) { let n = r.below(24); b = r.bytes(n); }
    let want = (|| { let (c, k) = uv_read(&b)?; let (n, k2) = uv_read(&b[k..])?; let name = algs().into_iter().find(|a| a.2 == c)?.1; let rest = &b[k + k2..]; let n = usize::try_from(n).ok()?; Some((name, rest.get(..n)?.to_vec())) })();
    tag(if want.is_some() { "decodes" } else { "refused" });
    match (Signature(b.clone()).decode(), want) {
        (Ok((a, s)), Some((n, w))) => ensure!(a.to_string() == n && s == w, "{b:?} decodes to {a} {s:?}, expected {n} {w:?}"),
        (Err(_), None) => {}
        (Ok((a, s)), None) => return Err(format!("{b:?} decodes to {a} {s:?}, expected failure")),
        (Err(e), Some(_)) => return Err(format!("{b:?} does not decode: {e}")),
    }
    Ok(())
}
fn r_did_text(r: &mut Rng) -> String { match r.below(9) { 0 => rdid(r), 1 => { let n = r.below(40); let b = r.bytes(n); format!("did:key:z{}", bs58::encode(b).into_string()) } 2 => format!("did:{}", rstr(r)), 3 => format!("did:web:{}", rstr(r)), 4 => format!("did:key:{}", rstr(r)), 5 => rstr(r), 6 => { let b = [&[0x9d, 0x1a][..], &r.bytes(3)].concat(); format!("did:key:z{}", bs58::encode(b).into_string()) } 7 => format!("did:key:z{}", r.pick(&["", "1", "11", "0", "O", "é", "a b"])), _ => format!("DID:{}", rstr(r)) } }
pub fn c18_principle(r: &mut Rng) -> R {
    let (d, mut d2) = (r_did_text(r), r_did_text(r)); if r.chance(1, 3) { d2 = variant(r, &d); } let (d, d2) = if r.chance(1, 2) { (d2, d) } else { (d, d2) };
    let p = Principle::from_str(&d);
    let key = d.strip_prefix("did:key:z");
    let want = match key { Some(x) => bs58::decode(x).into_vec().map_or(false, |b| !b.starts_with(&[0x9d, 0x1a])), None => d.starts_with("did:") };
    tag(if want { "accepted" } else { "refused" });
    ensure!(p.is_ok() == want, "{d:?} accepted as a principal: {}", p.is_ok());
    if let Ok(p) = &p {
        ensure!(p.to_string() == d, "{d:?} prints as {:?}", p.to_string());
        if let Ok(q) = Principle::from_str(&d2) { ensure!((d == d2) == (*p == q), "{d:?} and {d2:?}: same principal = {}", *p == q); }
        let bytes: Vec<u8> = match libipld_core::serde::to_ipld(p).map_err(es)? { Ipld::List(l) => l.into_iter().map(|x| if let Ipld::Integer(i) = x { i as u8 } else { 0 }).collect(), Ipld::Bytes(b) => b, x => return Err(format!("principal serializes as {x:?}")) };
        let w = match key { Some(x) => bs58::decode(x).into_vec().unwrap(), None => [&[0x9d, 0x1a][..], d[4..].as_bytes()].concat() };
        ensure!(bytes == w, "{d:?} is stored as {bytes:?}, expected {w:?}");
    }
    Ok(())
}
pub fn c19_store(r: &mut Rng) -> R {
    let mut s = MemoryStore::default(); let mut model: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut clone = s.clone();
    let pool: Vec<String> = (0..5).map(|i| match i { 0 => String::new(), 1 => "a".into(), 2 => r_tok(r).text(), _ => format!("t{}", r.below(4)) }).collect();
    for _ in 0..14 {
        let st = if r.chance(1, 3) { &mut clone } else { &mut s };
        let x = r.pick(&pool).clone();
        match r.below(5) {
            0 | 1 => { let c = block_on(st.write_token(&x)).map_err(es)?; ensure!(c == cid_of(x.as_bytes()), "{x:?} filed under {c}, expected {}", cid_of(x.as_bytes())); model.insert(c.to_bytes(), x); }
            2 => { let b = x.clone().into_bytes(); let c = block_on(st.write(Ipld::Bytes(b))).map_err(es)?; ensure!(c == cid_of(x.as_bytes()), "block {x:?} filed under {c}"); model.insert(c.to_bytes(), x); }
            3 => {
                let c = cid_of(x.as_bytes());
                let got = block_on(st.read_token(&c));
                match model.get(&c.to_bytes()) {
                    Some(w) => { tag("read"); ensure!(matches!(&got, Ok(Some(g)) if g == w), "reading {c} gives {got:?}, expected {w:?}"); ensure!(block_on(st.require_token(&c)).map_err(es)? == *w, "require_token differs"); }
                    None => { tag("missing"); ensure!(!matches!(got, Ok(Some(_))), "a CID never written gives {got:?}"); ensure!(block_on(st.require_token(&c)).is_err(), "a CID never written is found"); let raw: Option<Ipld> = block_on(st.read(&c)).map_err(es)?; ensure!(raw.is_none(), "a block never written is read"); }
                }
            }
            _ => { tag("other codec"); let c = match r.below(7) { 3 => Cid::new_v1(0x55, cid::multihash::Multihash::wrap(0x12, Code::Blake3_256.digest(x.as_bytes()).digest()).unwrap()), 4 => Cid::new_v1(0x55, cid::multihash::Multihash::wrap(0x1e, &Code::Blake3_256.digest(x.as_bytes()).digest()[..r.below(32)]).unwrap()), 5 => Cid::new_v1(0x55, cid::multihash::Multihash::wrap(0x00, &x.as_bytes()[..x.len().min(40)]).unwrap()), 6 => { let mut d = Code::Blake3_256.digest(x.as_bytes()).digest().to_vec(); let i = r.below(32); d[i] ^= 1 << r.below(8); Cid::new_v1(0x55, cid::multihash::Multihash::wrap(0x1e, &d).unwrap()) } 0 => Cid::new_v1(*r.pick(&[0x71u64, 0x70, 0x0129, 0x51, 0x00, 0x56, 0x155]), Code::Blake3_256.digest(x.as_bytes())), 1 => Cid::new_v1(0x55, Code::Sha2_256.digest(x.as_bytes())), _ => Cid::new_v0(Code::Sha2_256.digest(x.as_bytes())).unwrap() }; ensure!(block_on(st.read_token(&c)).map_or(true, |x| x.is_none()) && block_on(st.require_token(&c)).is_err(), "{c} is answered with a token"); if c.codec() != 0x55 { ensure!(block_on(st.read_token(&c)).is_err(), "codec of {c} is not refused"); } let raw: Option<Ipld> = block_on(st.read(&c)).map_err(es)?; ensure!(raw.is_none(), "{c} was never written, but a block is read"); }
        }
    }
    Ok(())
}
pub fn c19_ucan_cid(r: &mut Rng) -> R {
    let t = r_tok(r); let Ok(u) = Ucan::try_from(t.text()) else { ensure!(t.slash(), "well-formed token refused"); tag("reserved"); return Ok(()); };
    let mut s = MemoryStore::default();
    let c = block_on(s.write_token(&u.encode().map_err(es)?)).map_err(es)?;
    tag("cid");
    ensure!(u.to_cid(UcanBuilder::<Toy>::default_hasher()).map_err(es)? == c, "own CID {:?}, filed under {c}", u.to_cid(Code::Blake3_256));
    ensure!(c == cid_of(t.text().as_bytes()), "filed under {c}");
    let h = *r.pick(&[Code::Sha2_256, Code::Sha2_512, Code::Blake2b256, Code::Blake3_256, Code::Sha3_256, Code::Keccak256, Code::Blake2s128]); ensure!(u.to_cid(h).map_err(es)? == Cid::new_v1(0x55, h.digest(t.text().as_bytes())), "to_cid with another hash");
    let back = block_on(s.require_token(&c)).map_err(es)?;
    ensure!(Ucan::try_from(back.as_str()).map_err(es)? == u, "the stored token reads back as another");
    Ok(())
}
fn r_text(r: &mut Rng) -> String { let n = r.below(40); (0..n).map(|_| *r.pick(&['.', ':', 'a', 'z', 'A', '0', '=', '-', '_', '*', '/', 'é', '\u{0}', ' ', 'd', 'i', 'k', '%', '[', '#', '?', '\u{1F600}'])).collect() }
/// anything at all, given to every entry point; a panic is the violation
pub fn c20_text(r: &mut Rng) -> R {
    let s = match r.below(6) { 0 => r_text(r), 1 => r_did_text(r), 2 => r_res(r), 3 => { let mut b: Vec<char> = r_tok(r).text().chars().collect(); for _ in 0..1 + r.below(3) { let i = r.below(b.len()); match r.below(3) { 0 => b[i] = *r.pick(&['.', 'A', 'é', '=', '\u{0}']), 1 => { b.remove(i); } _ => b.insert(i, '.') } } b.into_iter().collect() }
        4 => { let h = rjson(r, 2); let p = rjson(r, 3); format!("{}.{}.{}", b64(canon(&h).as_bytes()), b64(canon(&p).as_bytes()), b64(&r.bytes(2))) }
        _ => format!("did:key:z{}", bs58::encode({ let n = r.below(4); r.bytes(n) }).into_string()) };
    tag("text");
    let mut p = parser();
    let _ = p.parse(&s).map(|k| block_on(k.get_did()));
    let mut q = ucan::crypto::did::DidParser::new(SUPPORTED); let _ = q.parse(&s).map(|_| ());
    let _ = Principle::from_str(&s).map(|p| p.to_string());
    let _ = Sem.parse(&s, "c/read", None); let _ = Sem.parse(&r_res(r), &s, Some(&rjson(r, 2)));
    let _ = ucan::capability::proof::ProofDelegationSemantics {}.parse(&s, "ucan/DELEGATE", None);
    let _ = ucan::capability::proof::ProofSelection::try_from(s.clone());
    if let Ok(u) = Ucan::try_from(s.as_str()) { let _ = u.encode(); let _ = u.to_cid(Code::Blake3_256); let _ = UcanIpld::try_from(&u).map(|i| Ucan::try_from(&i).map(|u| u.encode())); let _ = block_on(u.validate(Some(5), &mut p)); }
    let _ = block_on(ucan::chain::ProofChain::try_from_token_string(&s, Some(5), &mut p, &MapStore::default()));
    let _ = Capabilities::try_from(&rjson(r, 3));
    if let (Ok(a), Ok(b)) = (Caveat::try_from(rjson(r, 2)), Caveat::try_from(rjson(r, 2))) { let _ = a.enables(&b); }
    Ok(())
}
pub const SUPPORTED: &[(&[u8], fn(Vec<u8>) -> anyhow::Result<Box<dyn KeyMaterial>>)] = &[
    (ucan_key_support::ed25519::ED25519_MAGIC_BYTES, ucan_key_support::ed25519::bytes_to_ed25519_key), (ucan_key_support::rsa::RSA_MAGIC_BYTES, ucan_key_support::rsa::bytes_to_rsa_key), (ucan_key_support::p256::P256_MAGIC_BYTES, ucan_key_support::p256::bytes_to_p256_key)];
pub fn c20_bytes(r: &mut Rng) -> R {
    let n = *r.pick(&[0usize, 1, 2, 3, 31, 32, 33, 34, 35, 64, 66, 120]); let mut b = r.bytes(n);
    if r.chance(1, 2) && n >= 2 { b[..2].copy_from_slice(r.pick(&[[0x9d, 0x1a], [0xed, 0x01], [0x85, 0x24], [0x80, 0x24], [0xed, 0xa1]])); }
    tag("bytes");
    let l = Ipld::List(b.iter().map(|x| Ipld::Integer(*x as i128)).collect());
    for i in [l.clone(), Ipld::Bytes(b.clone())] {
        if let Ok(p) = libipld_core::serde::from_ipld::<Principle>(i.clone()) { let _ = p.to_string(); }
        if let Ok(s) = libipld_core::serde::from_ipld::<Signature>(i) { let _ = s.decode(); }
    }
    let _ = Signature(b.clone()).decode();
    let did = format!("did:key:z{}", bs58::encode(&b).into_string());
    let mut q = ucan::crypto::did::DidParser::new(SUPPORTED);
    if let Ok(k) = q.parse(&did) { let _ = block_on(k.get_did()); let n = r.below(80); let _ = block_on(k.verify(b"x", &r.bytes(n))); let _ = block_on(k.sign(b"x")); }
    let mut m = MapStore::default(); let c = cid_of(&b); m.m.insert(c, b.clone());
    let _ = block_on(m.read_token(&c)); let _ = block_on(ucan::chain::ProofChain::from_cid(&c, Some(1), &mut q, &m));
    Ok(())
}
pub fn c20_builder(r: &mut Rng) -> R {
    let mut k = Toy::new(0, &[1]); k.private = !r.chance(1, 4); k.nodid = r.chance(1, 4);
    let e = |r: &mut Rng| *r.pick(&[0u64, 1, i64::MAX as u64, u64::MAX]);
    let mut b = UcanBuilder::<Toy>::default(); tag("settings");
    if !r.chance(1, 5) { b = b.issued_by(&k); } if !r.chance(1, 5) { b = b.for_audience(&rstr(r)); }
    if r.chance(1, 2) { b = b.with_lifetime(e(r)); } if r.chance(1, 2) { b = b.with_expiration(e(r)); } if r.chance(1, 2) { b = b.not_before(e(r)); }
    for _ in 0..r.below(3) { b = b.claiming_capability((rstr(r), rstr(r), rjson(r, 2))); b = b.with_fact(&rstr(r), rjson(r, 2)); }
    if r.chance(1, 2) { b = b.with_fact("nan", f64::NAN); }
    if r.chance(1, 3) { b = b.with_nonce(); }
    if r.chance(1, 2) { if let Ok(u) = Ucan::try_from(r_tok(r).text()) { b = b.delegating_from(&u, None).witnessed_by(&u, Some(Code::Sha2_512)); } }
    if let Ok(s) = b.build() { if let Ok(u) = block_on(s.sign()) { let _ = u.encode(); let _ = block_on(u.validate(Some(e(r)), &mut parser())); let _ = block_on(u.validate(None, &mut parser())); let _ = UcanIpld::try_from(&u); } }
    Ok(())
}
pub fn c20_chain(r: &mut Rng) -> R {
    let (w, texts) = gen_world(r, &WorldOpts { faults: true, prf_claims: 8, caps: true, t: 1_000_000 });
    let t = *r.pick(&[0u64, 1_000_000, u64::MAX]);
    for x in texts.iter().rev().take(3) { if let Ok(c) = block_on(ucan::chain::ProofChain::try_from_token_string(x, Some(t), &mut parser(), &w.store)) { tag("chain"); let _ = c.reduce_capabilities(&Sem); let _ = format!("{c:?}"); } }
    Ok(())
}
// ---------------- keys ----------------
use rand::SeedableRng;
struct Keys { ed: ed25519_zebra::SigningKey, p: p256::ecdsa::SigningKey, rsa: rsa::RsaPrivateKey }
thread_local! { static RSA: std::cell::RefCell<Option<rsa::RsaPrivateKey>> = const { std::cell::RefCell::new(None) }; }
fn keys(r: &mut Rng) -> Keys {
    let mut g = rand::rngs::StdRng::seed_from_u64(r.next());
    let rsa = RSA.with(|c| c.borrow_mut().get_or_insert_with(|| rsa::RsaPrivateKey::new(&mut rand::rngs::StdRng::seed_from_u64(7), 1024).unwrap()).clone());
    Keys { ed: ed25519_zebra::SigningKey::new(&mut g), p: p256::ecdsa::SigningKey::random(&mut g), rsa }
}
fn key_case<K: KeyMaterial + Clone + 'static>(r: &mut Rng, name: &str, magic: &[u8], with: K, without: K, ref_verify: &dyn Fn(&[u8], &[u8]) -> bool, pubbytes: Vec<u8>) -> R {
    let mut n = r.below(60); if r.chance(1, 4) { n = 0; }
    let m = r.bytes(n);
    tag(name);
    ensure!(with.get_jwt_algorithm_name() == name && without.get_jwt_algorithm_name() == name, "algorithm name {} of a {name} key", with.get_jwt_algorithm_name());
    let did = block_on(with.get_did()).map_err(es)?;
    ensure!(did == block_on(without.get_did()).map_err(es)?, "the DID depends on the private part");
    ensure!(did == format!("did:key:z{}", bs58::encode([magic, &pubbytes].concat()).into_string()), "{name} key reports {did}");
    ensure!(block_on(without.sign(&m)).is_err(), "a {name} key without private part signs");
    let sig = block_on(with.sign(&m)).map_err(|e| format!("a {name} key with private part does not sign: {e}"))?;
    ensure!(ref_verify(&m, &sig), "what a {name} key signs is no signature of the scheme");
    let mut p = ucan::crypto::did::DidParser::new(SUPPORTED);
    let pk = p.parse(&did).map_err(|e| format!("{did} does not resolve: {e}"))?;
    ensure!(block_on(pk.get_did()).map_err(es)? == did && pk.get_jwt_algorithm_name() == name, "{did} resolves to {:?}", block_on(pk.get_did()));
    ensure!(block_on(pk.sign(&m)).is_err(), "a resolved {name} key signs");
    let boxed: std::sync::Arc<K> = std::sync::Arc::new(with.clone());
    ensure!(boxed.get_jwt_algorithm_name() == name && block_on(boxed.get_did()).map_err(es)? == did && block_on(boxed.verify(&m, &sig)).is_ok(), "behind an Arc the {name} key differs");
    for case in 0..7 {
        let (mut m2, mut s2) = (m.clone(), sig.clone());
        match case { 0 => {} 1 => { if m2.is_empty() { m2.push(0); } else { let i = r.below(m2.len()); m2[i] ^= 1 << r.below(8); } } 2 => { let i = r.below(s2.len()); s2[i] ^= 1 << r.below(8); } 3 => { s2.pop(); } 4 => s2.push(0), 5 => { let k = s2.len(); s2 = r.bytes(k); } _ => s2.clear() }
        let want = ref_verify(&m2, &s2);
        for (w, k) in [("key", &with as &dyn KeyMaterial), ("public key", &without), ("resolved key", &**pk as &dyn KeyMaterial)] {
            let got = block_on(k.verify(&m2, &s2)).is_ok();
            ensure!(got == want, "{name} {w} verify={got}, the scheme says {want} (case {case}, payload {} bytes, signature {} bytes)", m2.len(), s2.len());
        }
    }
    Ok(())
}
pub fn c21_ed25519(r: &mut Rng) -> R {
    let k = keys(r); let vk = ed25519_zebra::VerificationKey::from(&k.ed);
    let raw: [u8; 32] = vk.into();
    use ucan_key_support::ed25519::Ed25519KeyMaterial as K;
    key_case(r, "EdDSA", &[0xed, 0x01], K(vk, Some(k.ed)), K(vk, None), &|m, s| ed25519_zebra::Signature::try_from(s).map_or(false, |s| vk.verify(&s, m).is_ok()), raw.to_vec())
}
pub fn c21_p256(r: &mut Rng) -> R {
    use p256::ecdsa::signature::Verifier;
    let k = keys(r); let vk = *k.p.verifying_key();
    use ucan_key_support::p256::P256KeyMaterial as K;
    key_case(r, "ES256", &[0x80, 0x24], K(vk, Some(k.p.clone())), K(vk, None), &|m, s| p256::ecdsa::Signature::try_from(s).map_or(false, |s| vk.verify(m, &s).is_ok()), vk.to_encoded_point(true).as_bytes().to_vec())
}
pub fn c21_rsa(r: &mut Rng) -> R {
    use rsa::pkcs1::EncodeRsaPublicKey; use sha2::Digest;
    let k = keys(r); let vk = rsa::RsaPublicKey::from(&k.rsa);
    use ucan_key_support::rsa::RsaKeyMaterial as K;
    let der = vk.to_pkcs1_der().map_err(es)?.as_bytes().to_vec();
    key_case(r, "RS256", &[0x85, 0x24], K(vk.clone(), Some(k.rsa)), K(vk.clone(), None), &|m, s| { let h = sha2::Sha256::digest(m); vk.verify(rsa::Pkcs1v15Sign::new::<sha2::Sha256>(), &h, s).is_ok() }, der)
}
/// axioms assumed about dependencies by the contracts, sampled
pub fn axioms(r: &mut Rng) -> R {
    tag("axioms");
    let n = r.below(40); let b = r.bytes(n);
    let e = &base64::engine::general_purpose::URL_SAFE_NO_PAD;
    let t = e.encode(&b); ensure!(!t.contains('.') && e.decode(&t).map_or(false, |x| x == b), "base64url is not inverted on {b:?}");
    let s: String = { let k = r.below(8); (0..k).map(|_| *r.pick(&['A', 'B', '-', '_', '=', '/', 'z', '9', '.', 'é'])).collect() };
    if let Ok(x) = e.decode(&s) { ensure!(e.encode(x) == s, "base64url accepts two texts for the same bytes: {s}"); }
    let t = bs58::encode(&b).into_string(); ensure!(bs58::decode(&t).into_vec().map_or(false, |x| x == b), "base58 is not inverted");
    let s: String = { let k = r.below(8); (0..k).map(|_| *r.pick(&['1', '2', 'z', 'A', '0', 'O', 'l', 'é'])).collect() };
    if let Ok(x) = bs58::decode(&s).into_vec() { ensure!(bs58::encode(x).into_string() == s, "base58 accepts two texts for the same bytes: {s}"); }
    let v = r.next() >> r.below(64); let mut buf = unsigned_varint::encode::u64_buffer();
    let x = [unsigned_varint::encode::u64(v, &mut buf), &b].concat();
    ensure!(unsigned_varint::decode::u64(&x).map_or(false, |(n, rest)| n == v && rest == b), "varint is not inverted");
    let c = cid_of(&b); ensure!(c.to_string().parse::<Cid>().map_or(false, |x| x == c) && c.codec() == 0x55, "CID text is not inverted");
    let k = r.next() as usize >> r.below(64); ensure!(k.to_string().parse::<usize>() == Ok(k) && k.to_string() != "*", "decimal is not inverted");
    let u = url::Url::parse(&format!("prf:{k}")).map_err(es)?; ensure!(u.scheme() == "prf" && u.as_str() == format!("prf:{k}"), "prf:{k} does not parse as such");
    let u = url::Url::parse("prf:*").map_err(es)?; ensure!(u.scheme() == "prf" && u.as_str() == "prf:*", "prf:* does not parse as such");
    let u = url::Url::parse("my:*").map_err(es)?; ensure!(u.scheme() == "my" && u.path() == "*", "my:* does not parse as such");
    let t = r_text(r); if let Ok(u) = url::Url::parse(&format!("{}{t}", r.pick(&["as:", "my:", "prf:", "x://", "", " AS:"]))) { ensure!(!u.scheme().contains(':') && u.as_str().starts_with(&format!("{}:", u.scheme())), "URL text does not start with its scheme: {u}"); }
    ensure!("did:key:z".split(':').count() == 3, "split");
    let s = r_text(r); ensure!(s.split('.').collect::<Vec<_>>().join(".") == s, "split and join differ on {s}");
    ensure!(String::from_utf8_lossy(s.as_bytes()) == s, "lossy");
    Ok(())
}
