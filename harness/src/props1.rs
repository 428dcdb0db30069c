//! Tokens and chains: C01 - C08.
use crate::common::*;
use crate::props2::variant;
use crate::tag;
use cid::Cid;
use std::collections::BTreeSet;
use ucan::chain::{CapabilityInfo, ProofChain};
use ucan::store::UcanJwtStore;
use ucan::Ucan;

pub type R = Result<(), String>;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
pub(crate) use ensure;

fn clock() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }

/// a token at, around and away from the boundaries of its window
pub fn c01_window(r: &mut Rng) -> R {
    let k = Toy::new(0, &[1, r.next() as u8]);
    let mut t = Tok::new(&k, "did:key:zAudience");
    let base = if r.chance(1, 3) { 1u64 << r.below(64) } else { 0 }.max(*r.pick(&[0u64, 1, 5, 1_000, 1_700_000_000, u32::MAX as u64, 4_102_444_800, i64::MAX as u64 - 3]));
    let near = |r: &mut Rng| -> u64 { match r.below(10) { 9 => if r.chance(1, 4) { u64::MAX } else { base }, 8 => base.saturating_add(1 << r.below(20)), 0 => 0, 1 => i64::MAX as u64, _ => base.saturating_add(r.below(5) as u64).saturating_sub(2) } };
    let now = near(r);
    t.exp = if r.chance(1, 4) { None } else { Some(near(r)) };
    t.nbf = if r.chance(1, 4) { None } else { Some(near(r)) };
    if r.chance(1, 8) { t.bad_sig = 1 + r.below(6) as u8; }
    let u = Ucan::try_from(t.text()).map_err(|e| format!("honest token rejected: {e} {t:?}"))?;
    let want = t.in_window(now) && t.bad_sig == 0;
    tag(if want { "accepted" } else { "refused" });
    let got = block_on(u.validate(Some(now), &mut parser())).is_ok();
    ensure!(got == want, "validate(Some({now})) accepted={got}, expected {want}: exp={:?} nbf={:?} bad_sig={}", t.exp, t.nbf, t.bad_sig);
    ensure!(u.is_expired(Some(now)) == t.exp.map_or(false, |e| e < now), "is_expired(Some({now})) wrong for exp={:?}", t.exp);
    let c = block_on(ProofChain::try_from_token_string(&t.text(), Some(now), &mut parser(), &MapStore::default())).is_ok();
    ensure!(c == want, "chain at {now} accepted={c}, expected {want}: exp={:?} nbf={:?}", t.exp, t.nbf);
    Ok(())
}
/// without a validation time the wall clock counts
pub fn c01_clock(r: &mut Rng) -> R {
    let k = Toy::new(0, &[2]);
    let mut t = Tok::new(&k, "did:key:zAudience");
    let now = clock();
    let far = |r: &mut Rng| match r.below(5) { 0 => 0, 1 => now - 1000, 2 => now + 1000, 3 => i64::MAX as u64, _ => now - 1 - r.below(10_000) as u64 };
    t.exp = if r.chance(1, 4) { None } else { Some(far(r)) };
    t.nbf = if r.chance(1, 4) { None } else { Some(far(r)) };
    let want = t.in_window(now);
    tag(if want { "accepted" } else { "refused" });
    let u = Ucan::try_from(t.text()).map_err(|e| e.to_string())?;
    let got = block_on(u.validate(None, &mut parser())).is_ok();
    ensure!(got == want, "validate(None) accepted={got}, expected {want}: now={now} exp={:?} nbf={:?}", t.exp, t.nbf);
    let c = block_on(ProofChain::from_ucan(u, None, &mut parser(), &MapStore::default())).is_ok();
    ensure!(c == want, "chain without a validation time accepted={c}, expected {want}: now={now} exp={:?} nbf={:?}", t.exp, t.nbf);
    Ok(())
}
fn chain_case(r: &mut Rng, focus: &[Why], o: &WorldOpts, positives: bool) -> R {
    let (w, texts) = gen_world(r, o);
    let mut p = parser();
    // what was validated before must not matter
    for _ in 0..r.below(3) { let t = r.pick(&texts).clone(); let _ = block_on(ProofChain::try_from_token_string(&t, Some(o.t), &mut p, &w.store)); }
    for text in texts.iter().rev().take(2) {
        let want = w.chain(text, o.t);
        let got = match r.below(3) {
            0 => block_on(ProofChain::try_from_token_string(text, Some(o.t), &mut p, &w.store)),
            1 => match Ucan::try_from(text.as_str()) { Ok(u) => block_on(ProofChain::from_ucan(u, Some(o.t), &mut p, &w.store)), Err(e) => Err(e) },
            _ => { let c = cid_of(text.as_bytes()); if w.store.m.contains_key(&c) && !w.store.fail.contains(&c) { block_on(ProofChain::from_cid(&c, Some(o.t), &mut p, &w.store)) } else { block_on(ProofChain::try_from_token_string(text, Some(o.t), &mut p, &w.store)) } }
        };
        match (&want, &got) {
            (Err(why), Ok(_)) => { ensure!(!focus.contains(why), "a chain was built although it must fail ({why:?}) at {}: token {:?}", o.t, w.toks[text]); }
            (Ok(_), Err(e)) => { ensure!(!positives, "an acceptable chain was refused at {}: {e}; token {:?}", o.t, w.toks[text]); }
            (Ok(_), Ok(_)) => tag("built"),
            (Err(why), Err(_)) => tag(&format!("refused:{why:?}")),
        }
    }
    Ok(())
}
const T: u64 = 1_000_000;
pub fn c01_chain(r: &mut Rng) -> R { chain_case(r, &[Why::Window], &WorldOpts { faults: true, prf_claims: 1, caps: false, t: T }, false)?; chain_case(r, &[], &WorldOpts { faults: false, prf_claims: 0, caps: false, t: T }, true) }
pub fn c02_chain(r: &mut Rng) -> R { chain_case(r, &[Why::Signature], &WorldOpts { faults: true, prf_claims: 1, caps: false, t: T }, false) }
pub fn c03_chain(r: &mut Rng) -> R { chain_case(r, &[Why::Audience, Why::Lifetime], &WorldOpts { faults: true, prf_claims: 1, caps: false, t: T }, false) }
pub fn c04_build(r: &mut Rng) -> R { let all = [Why::NotAToken, Why::BadCid, Why::Missing, Why::Signature, Why::Window]; chain_case(r, &all, &WorldOpts { faults: true, prf_claims: 1, caps: false, t: T }, true) }
pub fn c05_build(r: &mut Rng) -> R { chain_case(r, &[Why::BadIndex], &WorldOpts { faults: true, prf_claims: 9, caps: false, t: T }, true) }

/// signatures: corrupted bytes, other keys, unresolvable issuers, with a warm parser
pub fn c02_sig(r: &mut Rng) -> R {
    let mut p = parser();
    let keys: Vec<Toy> = (0..4).map(|i| Toy::new(i % 2, &[i, 7])).collect();
    for _ in 0..4 {
        let k = r.pick(&keys).clone();
        let mut t = Tok::new(&k, &r.pick(&keys).did());
        t.exp = Some(T + 10);
        if r.chance(1, 3) { t.fct = Some(robj(r, 1)); if t.slash() { t.fct = None; } }
        match r.below(6) {
            0 => t.bad_sig = 1 + r.below(6) as u8,
            1 => t.iss = r.pick(&keys).did(),
            2 => t.iss = r.pick(&["did:key:zzzz0OIl", "did:key:", "did:web:a", "did:key:z", "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK", "x"]).to_string(),
            3 => { t.iss = Toy::new(k.kind, &[0xff, 1]).did(); }
            _ => {}
        }
        let mut text = t.text();
        let want;
        if r.chance(1, 3) {
            // change one character of header or payload after signing, keeping it decodable
            let mut t2 = t.clone();
            match r.below(5) { 0 => t2.aud = rdid(r), 1 => t2.exp = Some(T + 11), 2 => t2.ucv = "0.10.0".into(), 3 => t2.typ = "jwt".into(), _ => t2.nnc = Some("n".into()) }
            text = format!("{}.{}", t2.signed(), text.rsplit('.').next().unwrap());
            want = resolve(&t2.iss).map_or(false, |k| k.sig(t2.signed().as_bytes()) == t.sig());
        } else { want = t.sig_valid(); }
        let u = Ucan::try_from(text.as_str()).map_err(|e| e.to_string())?;
        tag(if want { "valid" } else { "invalid" });
        let got = block_on(u.check_signature(&mut p)).is_ok();
        ensure!(got == want, "check_signature accepted={got}, expected {want}: {t:?} as {text}");
        let got = block_on(u.validate(Some(T), &mut p)).is_ok();
        ensure!(got == want, "validate accepted={got}, expected {want}: {t:?} as {text}");
    }
    Ok(())
}
/// a token in another byte form: the signature is over the received bytes, not over a re-encoding
pub fn c02_bytes(r: &mut Rng) -> R {
    let k = Toy::new(0, &[5]);
    let mut t = Tok::new(&k, "did:key:zA"); t.exp = Some(T + 5);
    if r.chance(1, 2) { t.nnc = Some("n".into()); }
    // a non-canonical, but decodable, JSON text
    let sp = |v: &serde_json::Value, r: &mut Rng| -> String { let c = serde_json::to_string_pretty(v).unwrap(); if r.chance(1, 2) { c } else { format!(" {} ", canon(v)) } };
    let (h, p) = (sp(&t.header(), r), sp(&t.payload(), r));
    let signed = format!("{}.{}", b64(h.as_bytes()), b64(p.as_bytes()));
    let over_canonical = r.chance(1, 2);
    let sig = if over_canonical { k.sig(t.signed().as_bytes()) } else { k.sig(signed.as_bytes()) };
    let text = format!("{signed}.{}", b64(&sig));
    if let Ok(u) = Ucan::try_from(text.as_str()) {
        tag("decoded");
        let got = block_on(u.validate(Some(T), &mut parser())).is_ok();
        ensure!(got == !over_canonical, "token {text}: accepted={got}, but its signature covers {}", if over_canonical { "other bytes" } else { "exactly its bytes" });
    }
    Ok(())
}

fn same_chain(c: &ProofChain, o: &OChain) -> R {
    ensure!(c.ucan().encode().map_err(|e| e.to_string())? == o.text, "chain holds token {:?}, expected {}", c.ucan(), o.text);
    ensure!(c.proofs().len() == o.proofs.len(), "chain has {} proofs, token lists {}: {:?}", c.proofs().len(), o.proofs.len(), o.tok.prf);
    for (a, b) in c.proofs().iter().zip(&o.proofs) { same_chain(a, b)?; }
    Ok(())
}
pub fn c04_structure(r: &mut Rng) -> R {
    let faults = r.chance(1, 3);
    let (w, texts) = gen_world(r, &WorldOpts { faults, prf_claims: 1, caps: false, t: T });
    let text = texts.last().unwrap();
    if let (Ok(o), Ok(c)) = (w.chain(text, T), block_on(ProofChain::try_from_token_string(text, Some(T), &mut parser(), &w.store))) {
        tag(if o.proofs.is_empty() { "no proofs" } else { "proofs" });
        same_chain(&c, &o)?;
    }
    Ok(())
}
/// the same through the in-memory store
pub fn c04_memory(r: &mut Rng) -> R {
    let (w, texts) = gen_world(r, &WorldOpts { faults: false, prf_claims: 0, caps: false, t: T });
    let mut s = ucan::store::MemoryStore::default();
    let mut cids: Vec<Cid> = vec![];
    for t in &texts { cids.push(block_on(s.write_token(t)).map_err(|e| e.to_string())?); }
    let i = r.below(texts.len());
    if let Ok(o) = w.chain(&texts[i], T) {
        tag("built");
        let c = block_on(ProofChain::from_cid(&cids[i], Some(T), &mut parser(), &s)).map_err(|e| format!("chain refused: {e}"))?;
        same_chain(&c, &o)?;
    }
    Ok(())
}
/// every proof reports one capability of its own; which of them the root reports says what was redelegated
pub fn c05_select(r: &mut Rng) -> R {
    let root_key = Toy::new(0, &[9]);
    let n = if r.chance(1, 5) { 9 + r.below(4) } else { r.below(5) };
    let mut w = World { toks: Default::default(), store: MapStore::default() };
    let mut texts = vec![];
    for i in 0..n {
        let k = Toy::new((i % 2) as u8, &[20 + i as u8]);
        let mut t = Tok::new(&k, &root_key.did());
        t.cap = serde_json::json!({ format!("t:own{i}"): { "c/read": [{}] } });
        let x = t.text(); w.store.m.insert(cid_of(x.as_bytes()), x.clone().into_bytes()); w.toks.insert(x.clone(), t); texts.push(x);
    }
    let mut t = Tok::new(&root_key, "did:key:zAud");
    t.prf = if n == 0 { None } else { Some(texts.iter().map(|x| cid_of(x.as_bytes()).to_string()).collect()) };
    let mut m = serde_json::Map::new();
    for _ in 0..r.below(4) {
        let res = match r.below(16) { 14 => "prf:*?x".into(), 15 => r.pick(&["prf:0?x", "prf:0#y", "prf:*#"]).to_string(), 0..=5 => format!("prf:{}", r.below(n + 1)), 6 => "prf:*".into(), 7 => "my:*".into(), 8 => "my:0".into(), 9 => "prf:".into(), 10 => "prf:+1".into(), 11 => "prf:00".into(), 12 => "as:did:key:zA:prf:0".into(), _ => "t:*".into() };
        let ab = r.pick(&["ucan/DELEGATE", "ucan/DELEGATE", "ucan/DELEGATE", "ucan/delegate", "ucan/*", "*"]).to_string();
        let list = match r.below(8) { 0 => serde_json::json!([]), 1 => serde_json::json!([{"x":1}]), 2 => serde_json::json!([{}, {}]), _ => serde_json::json!([{}]) };
        m.entry(res).or_insert_with(|| serde_json::json!({})).as_object_mut().unwrap().insert(ab, list);
    }
    t.cap = serde_json::Value::Object(m);
    let x = t.text(); w.toks.insert(x.clone(), t.clone());
    let got = block_on(ProofChain::try_from_token_string(&x, Some(T), &mut parser(), &w.store));
    match (w.chain(&x, T), got) {
        (Ok(o), Ok(c)) => {
            let infos: Vec<CapabilityInfo<Sc, Ab>> = c.reduce_capabilities(&Sem);
            for i in 0..n {
                let reported: Vec<_> = infos.iter().filter(|f| view_to_o(&f.capability).scope == Some(Sc { scheme: Some("t".into()), path: format!("own{i}") })).collect();
                let want = o.redel.contains(&i);
                tag(if want { "redelegated" } else { "not redelegated" });
                ensure!(reported.len() == want as usize, "proof {i} of {n} redelegated={}, expected {want}: capabilities {}", !reported.is_empty(), t.cap);
                if want { let k: BTreeSet<String> = [o.proofs[i].tok.iss.clone()].into(); ensure!(reported[0].originators == k, "proof {i}: originators {:?}, expected {k:?}", reported[0].originators); }
            }
        }
        (Ok(_), Err(e)) => return Err(format!("chain refused although all its redelegations exist: {e}; {} with {n} proofs", t.cap)),
        (Err(why), Ok(_)) => return Err(format!("chain built although {why:?}: {} with {n} proofs", t.cap)),
        (Err(_), Err(_)) => tag("bad index"),
    }
    Ok(())
}
fn reports(r: &mut Rng) -> Option<(Vec<CapabilityInfo<Sc, Ab>>, Vec<OInfo>, OChain)> {
    let (w, texts) = gen_world(r, &WorldOpts { faults: false, prf_claims: 4, caps: true, t: T });
    let text = texts.last().unwrap();
    let o = w.chain(text, T).ok()?;
    let c = block_on(ProofChain::try_from_token_string(text, Some(T), &mut parser(), &w.store)).ok()?;
    tag(&format!("depth {}", { let mut v = vec![]; o.walk(&mut v); v.len().min(5) }));
    Some((c.reduce_capabilities(&Sem), o.report(), o))
}
pub fn c06_sound(r: &mut Rng) -> R { match reports(r) { Some((g, w, o)) => sound(&g, &w, &o), None => Ok(()) } }
fn sound(got: &[CapabilityInfo<Sc, Ab>], want: &[OInfo], o: &OChain) -> R {
        for g in got {
            let cap = view_to_o(&g.capability);
            let w = want.iter().find(|w| w.cap == cap).ok_or_else(|| format!("reported capability that is neither claimed nor redelegated: {cap:?} by {}", o.tok.cap))?;
            for x in &g.originators { ensure!(w.orig.contains(x), "originator {x} reported for {cap:?}, but only {:?} granted it", w.orig); }
            ensure!(!g.originators.is_empty(), "no originator for {cap:?}");
        }
    Ok(())
}
pub fn c07_complete(r: &mut Rng) -> R { match reports(r) { Some((g, w, o)) => complete(&g, &w, &o), None => Ok(()) } }
fn complete(got: &[CapabilityInfo<Sc, Ab>], want: &[OInfo], o: &OChain) -> R {
        for w in want {
            tag("expected report");
            let g: Vec<_> = got.iter().filter(|g| view_to_o(&g.capability) == w.cap).collect();
            ensure!(!g.is_empty(), "capability {:?} is not reported; token claims {}", w.cap, o.tok.cap);
            let all: BTreeSet<String> = g.iter().flat_map(|g| g.originators.clone()).collect();
            for x in &w.orig { ensure!(all.contains(x), "originator {x} missing for {:?}: reported {all:?}", w.cap); }
        }
    Ok(())
}
pub fn c08_bounds(r: &mut Rng) -> R { match reports(r) { Some((g, _, o)) => bounds(&g, &o), None => Ok(()) } }
fn bounds(got: &[CapabilityInfo<Sc, Ab>], o: &OChain) -> R {
        let mut below = vec![]; o.walk(&mut below);
        for g in got {
            tag("report");
            ensure!(g.not_before == o.tok.nbf && g.expires_at == o.tok.exp, "bounds ({:?},{:?}) reported for {:?}; the token has ({:?},{:?})", g.not_before, g.expires_at, view_to_o(&g.capability), o.tok.nbf, o.tok.exp);
            for b in &below {
                if let Some(n) = b.tok.nbf { ensure!(g.not_before.map_or(false, |x| x >= n), "not before {:?} although a token below begins at {n}", g.not_before); }
                if let Some(e) = b.tok.exp { ensure!(g.expires_at.map_or(false, |x| x <= e), "expires {:?} although a token below ends at {e}", g.expires_at); }
            }
        }
    Ok(())
}
/// lifetimes of two tokens
pub fn c03_lifetime(r: &mut Rng) -> R {
    let k = Toy::new(0, &[3]);
    let v = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(match r.below(8) { 6 => 1u64 << r.below(63), 7 => (1u64 << r.below(63)) - 1, 5 => u64::MAX, _ => *r.pick(&[0u64, 1, 2, 3, T, i64::MAX as u64]) }) };
    let (mut a, mut b) = (Tok::new(&k, "did:key:zA"), Tok::new(&k, "did:key:zA"));
    a.exp = v(r); a.nbf = v(r); b.exp = v(r); b.nbf = v(r);
    let (ua, ub) = (Ucan::try_from(a.text()).map_err(|e| e.to_string())?, Ucan::try_from(b.text()).map_err(|e| e.to_string())?);
    let nb = match (a.nbf, b.nbf) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x <= y };
    let ex = match (a.exp, b.exp) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x >= y };
    tag(if nb && ex { "contains" } else { "does not contain" });
    ensure!(ua.lifetime_begins_before(&ub) == nb, "lifetime_begins_before wrong: {:?} {:?}", a.nbf, b.nbf);
    ensure!(ua.lifetime_ends_after(&ub) == ex, "lifetime_ends_after wrong: {:?} {:?}", a.exp, b.exp);
    ensure!(ua.lifetime_encompasses(&ub) == (nb && ex), "lifetime_encompasses wrong: {:?} {:?}", (a.nbf, a.exp), (b.nbf, b.exp));
    Ok(())
}
/// one link: every combination of windows and audiences
pub fn c03_link(r: &mut Rng) -> R {
    let (k1, k2, k3) = (Toy::new(0, &[1]), Toy::new(1, &[2]), Toy::new(0, &[3]));
    let e = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(T + r.below(4) as u64) };
    let n = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(T - r.below(4) as u64) };
    let mut p = Tok::new(&k1, &match r.below(8) { 0 => k3.did(), 1 => variant(r, &k2.did()), 2 => format!("{}{}", k2.did(), k3.did()), _ => k2.did() }); p.exp = e(r); p.nbf = n(r);
    let mut t = Tok::new(&k2, "did:key:zA"); t.exp = e(r); t.nbf = n(r);
    let mut w = World { toks: Default::default(), store: MapStore::default() };
    let (pt, _) = (p.text(), 0);
    w.store.m.insert(cid_of(pt.as_bytes()), pt.clone().into_bytes()); w.toks.insert(pt.clone(), p.clone());
    t.prf = Some(vec![cid_of(pt.as_bytes()).to_string(); 1 + r.below(2)]);
    let mut top = t.text(); w.toks.insert(top.clone(), t.clone());
    // the faulty link may lie further down
    if r.chance(1, 3) {
        w.store.m.insert(cid_of(top.as_bytes()), top.clone().into_bytes());
        let mut q = Tok::new(&k3, "did:key:zB"); q.exp = t.exp; q.nbf = t.nbf; t.aud = k3.did();
        let t2 = t.text(); w.toks.insert(t2.clone(), t.clone()); w.store.m.insert(cid_of(t2.as_bytes()), t2.clone().into_bytes());
        q.prf = Some(vec![cid_of(t2.as_bytes()).to_string()]);
        top = q.text(); w.toks.insert(top.clone(), q);
    }
    let want = w.chain(&top, T);
    tag(&format!("{:?}", want.as_ref().map(|_| ())));
    let got = block_on(ProofChain::try_from_token_string(&top, Some(T), &mut parser(), &w.store)).is_ok();
    ensure!(got == want.is_ok(), "link accepted={got}, expected {:?}: proof aud={} window=({:?},{:?}), token iss={} window=({:?},{:?})", want.err(), p.aud, p.nbf, p.exp, t.iss, t.nbf, t.exp);
    Ok(())
}

/// long and wide chains, with at most one fault somewhere in them
fn big_case(r: &mut Rng, focus: &[Why], positives: bool) -> R {
    let (w, text, what) = { let f = r.chance(1, 2); gen_big(r, T, f, false) };
    let want = w.chain(&text, T);
    let got = block_on(ProofChain::try_from_token_string(&text, Some(T), &mut parser(), &w.store));
    match (want, got) {
        (Err(why), Ok(_)) => { ensure!(!focus.contains(&why), "a chain was built although it must fail ({why:?}): {what}"); tag("other"); }
        (Ok(_), Err(e)) => { ensure!(!positives, "an acceptable chain was refused: {e}; {what}"); tag("other"); }
        (Ok(o), Ok(c)) => { tag("built"); if positives { same_chain(&c, &o)?; } }
        (Err(why), Err(_)) => tag(&format!("refused:{why:?}")),
    }
    Ok(())
}
pub fn c01_big(r: &mut Rng) -> R { big_case(r, &[Why::Window], false) }
pub fn c02_big(r: &mut Rng) -> R { big_case(r, &[Why::Signature], false) }
pub fn c03_big(r: &mut Rng) -> R { big_case(r, &[Why::Audience, Why::Lifetime], false) }
pub fn c04_big(r: &mut Rng) -> R { big_case(r, &[Why::NotAToken, Why::BadCid, Why::Missing, Why::Signature, Why::Window], true) }
fn big_reports(r: &mut Rng) -> Option<(Vec<CapabilityInfo<Sc, Ab>>, Vec<OInfo>, OChain)> {
    let (w, text, _) = gen_big(r, T, false, true);
    let o = w.chain(&text, T).ok()?;
    let c = block_on(ProofChain::try_from_token_string(&text, Some(T), &mut parser(), &w.store)).ok()?;
    Some((c.reduce_capabilities(&Sem), o.report(), o))
}
pub fn c06_big(r: &mut Rng) -> R { match big_reports(r) { Some((g, w, o)) => sound(&g, &w, &o), None => { tag("no chain"); Ok(()) } } }
pub fn c07_big(r: &mut Rng) -> R { match big_reports(r) { Some((g, w, o)) => complete(&g, &w, &o), None => { tag("no chain"); Ok(()) } } }
pub fn c08_big(r: &mut Rng) -> R { match big_reports(r) { Some((g, _, o)) => bounds(&g, &o), None => { tag("no chain"); Ok(()) } } }
