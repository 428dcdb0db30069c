// =====================================================================================
// Dependencies: url, cid, multihash, libipld, base64, bs58, unsigned-varint, serde_json,
// strum, rand. Each contract states what this project relies on.
// =====================================================================================
// ---------- serde_json ----------
#[verifier::external_body] pub struct Number { }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(VMap<String, Value>) }
impl VClone for Value { #[verifier::external_body] fn v_clone(&self) -> (r: Value) { unimplemented!() } }
impl VEq<Value> for Value { open spec fn s_eq(&self, o: &Value) -> bool { *self == *o } #[verifier::external_body] fn v_eq(&self, o: &Value) -> (r: bool) { unimplemented!() } }
impl VEq<VMap<String, Value>> for VMap<String, Value> { open spec fn s_eq(&self, o: &VMap<String, Value>) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &VMap<String, Value>) -> (r: bool) { unimplemented!() } }
impl VToString for Value { uninterp spec fn s_str(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl Value {
    #[verifier::external_body] pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { unimplemented!() }
    #[verifier::external_body] pub fn as_object(&self) -> (r: Option<&VMap<String, Value>>) ensures match r { Some(m) => *self == Value::Object(*m), None => !(self is Object) } { unimplemented!() }
    #[verifier::external_body] pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match r { Some(m) => *self == Value::Array(*m), None => !(self is Array) } { unimplemented!() }
}
pub open spec fn s_json_empty() -> Value { choose|v: Value| v is Object && v->Object_0@ == Map::<Seq<char>, Value>::empty() }
#[verifier::external_body] pub proof fn axiom_json_empty() ensures s_json_empty() is Object, s_json_empty()->Object_0@ == Map::<Seq<char>, Value>::empty() { }
#[verifier::external_body] pub fn v_json_empty() -> (r: Value) ensures r is Object, r->Object_0@ == Map::<Seq<char>, Value>::empty(), r == s_json_empty() { unimplemented!() }
/// serde_json::to_value: what a value serializes to, if it does
pub uninterp spec fn json_of<T>(t: T) -> Option<Value>;
#[verifier::external_body] pub fn serde_json__to_value<T: VSerde>(t: T) -> (r: Result<Value, Error>) ensures match json_of(t) { Some(v) => r == Ok::<Value, Error>(v), None => r is Err } { unimplemented!() }
pub trait VSerde { }

// ---------- url ----------
#[verifier::external_body] pub struct Url { }
pub uninterp spec fn url_parse(s: Seq<char>) -> Option<Url>;
impl Url {
    pub uninterp spec fn s_path(&self) -> Seq<char>;
    pub uninterp spec fn s_scheme(&self) -> Seq<char>;
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Url, Error>) ensures match url_parse(s@) { Some(u) => r == Ok::<Url, Error>(u), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self.s_path() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.s_str() { unimplemented!() }
    #[verifier::external_body] pub fn scheme(&self) -> (r: &str) ensures r@ == self.s_scheme() { unimplemented!() }
}
impl VClone for Url { #[verifier::external_body] fn v_clone(&self) -> (r: Url) { unimplemented!() } }
impl VToString for Url { uninterp spec fn s_str(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
/// the text of a URL starts with its scheme, which has no colon
#[verifier::external_body] pub broadcast proof fn axiom_url_scheme(u: Url) ensures #![trigger u.s_scheme()] #![trigger u.s_str()] is_prefix(u.s_scheme() + seq![':'], u.s_str()), !u.s_scheme().contains(':') { }
/// `prf:` followed by a decimal number, or `prf:*`, is kept as it is
#[verifier::external_body] pub broadcast proof fn axiom_url_prf(n: int) requires 0 <= n <= usize::MAX
    ensures #![trigger url_parse("prf:"@ + dec(n))] match url_parse("prf:"@ + dec(n)) { Some(u) => u.s_scheme() == "prf"@ && u.s_str() == "prf:"@ + dec(n), None => false } { }
#[verifier::external_body] pub proof fn axiom_url_prf_all()
    ensures match url_parse("prf:*"@) { Some(u) => u.s_scheme() == "prf"@ && u.s_str() == "prf:*"@, None => false } { }

#[verifier::external_body] pub proof fn axiom_url_my_all()
    ensures match url_parse("my:*"@) { Some(u) => u.s_scheme() == "my"@ && u.s_path() == "*"@, None => false } { }

// ---------- cid, multihash, ipld ----------
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Cid { }
pub uninterp spec fn cid_parse(s: Seq<char>) -> Option<Cid>;
pub uninterp spec fn cid_text(c: Cid) -> Seq<char>;
/// the CIDv1 of a codec and a multihash
pub uninterp spec fn cid_v1(codec: u64, mh: Multihash) -> Cid;
impl Cid {
    pub uninterp spec fn s_codec(&self) -> u64;
    #[verifier::external_body] pub fn codec(&self) -> (r: u64) ensures r == self.s_codec() { unimplemented!() }
    #[verifier::external_body] pub fn new_v1(codec: u64, mh: Multihash) -> (r: Cid) ensures r == cid_v1(codec, mh) { unimplemented!() }
}
#[verifier::external_body] pub broadcast proof fn axiom_cid_text(c: Cid) ensures cid_parse(#[trigger] cid_text(c)) == Some(c) { }
#[verifier::external_body] pub broadcast proof fn axiom_cid_v1(codec: u64, mh: Multihash) ensures (#[trigger] cid_v1(codec, mh)).s_codec() == codec { }
impl<'a> VTryFrom<&'a str> for Cid { open spec fn s_try_from(t: &'a str, r: Result<Cid, Error>) -> bool { match cid_parse(t@) { Some(c) => r == Ok::<Cid, Error>(c), None => r is Err } } #[verifier::external_body] fn v_try_from(t: &'a str) -> (r: Result<Cid, Error>) { unimplemented!() } }
impl VTryFrom<String> for Cid { open spec fn s_try_from(t: String, r: Result<Cid, Error>) -> bool { match cid_parse(t@) { Some(c) => r == Ok::<Cid, Error>(c), None => r is Err } } #[verifier::external_body] fn v_try_from(t: String) -> (r: Result<Cid, Error>) { unimplemented!() } }
impl VFromStr for Cid { open spec fn s_from_str(t: Seq<char>, r: Result<Cid, Error>) -> bool { match cid_parse(t) { Some(c) => r == Ok::<Cid, Error>(c), None => r is Err } } #[verifier::external_body] fn v_from_str(t: &str) -> (r: Result<Cid, Error>) { unimplemented!() } }
impl VToString for Cid { open spec fn s_str(&self) -> Seq<char> { cid_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VClone for Cid { fn v_clone(&self) -> (r: Cid) { *self } }
impl VEq<Cid> for Cid { open spec fn s_eq(&self, o: &Cid) -> bool { *self == *o } #[verifier::external_body] fn v_eq(&self, o: &Cid) -> (r: bool) { unimplemented!() } }
impl VKey for Cid { type KV = Cid; open spec fn kv(&self) -> Cid { *self } }
#[verifier::external_body] pub struct Multihash { }
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub enum Code { Sha2_256, Sha2_512, Sha3_256, Blake2b256, Blake2s256, Blake3_256, Other(u64) }
/// the multihash of bytes under a hash function
pub uninterp spec fn mhash(c: Code, b: Seq<u8>) -> Multihash;
impl Code { #[verifier::external_body] pub fn digest(&self, b: &[u8]) -> (r: Multihash) ensures r == mhash(*self, b@) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct RawCodec;
#[derive(Clone, Copy)] pub struct DagJsonCodec;
impl VFrom<RawCodec> for u64 { open spec fn s_from(t: RawCodec, r: u64) -> bool { r == 0x55 } fn v_from(t: RawCodec) -> (r: u64) { 0x55 } }
/// blocks under a codec
pub trait Encode<C> { spec fn s_enc(&self) -> Option<Seq<u8>>;
    fn encode(&self, c: C, w: &mut Vec<u8>) -> (r: Result<(), Error>) ensures match self.s_enc() { Some(b) => r is Ok && final(w)@ == old(w)@ + b, None => r is Err }; }
pub trait Decode<C>: Sized { spec fn s_dec(b: Seq<u8>, r: Result<Self, Error>) -> bool; fn decode(c: C, r: &mut Cursor) -> (x: Result<Self, Error>) ensures Self::s_dec(old(r)@, x); }
impl Encode<RawCodec> for [u8] { open spec fn s_enc(&self) -> Option<Seq<u8>> { Some(self@) } #[verifier::external_body] fn encode(&self, c: RawCodec, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl Encode<RawCodec> for Vec<u8> { open spec fn s_enc(&self) -> Option<Seq<u8>> { Some(self@) } #[verifier::external_body] fn encode(&self, c: RawCodec, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl RawCodec { #[verifier::external_body] pub fn encode<T: Encode<RawCodec> + ?Sized>(&self, t: &T) -> (r: Result<Vec<u8>, Error>) ensures match t.s_enc() { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err } { unimplemented!() } }
/// a lock: its value, and whether a holder panicked
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Mutex<T> { t: T }
pub struct PoisonError { }
impl<T> Mutex<T> { pub uninterp spec fn val(&self) -> T; pub uninterp spec fn poisoned(&self) -> bool; }
#[verifier::external_body] pub fn v_lock<T>(m: &Arc<Mutex<T>>) -> (r: Result<&T, PoisonError>) ensures r is Ok <==> !m.poisoned(), r is Ok ==> *r->Ok_0 == m.val() { unimplemented!() }
/// the holder of the lock sees and changes the value; every lock is taken by one call at a time
#[verifier::external_body] pub fn v_lock_mut<T>(m: &mut Arc<Mutex<T>>) -> (r: Result<&mut T, PoisonError>)
    ensures r is Ok <==> !old(m).poisoned(), final(m).poisoned() == old(m).poisoned(),
        match r { Ok(x) => *x == old(m).val() && *final(x) == final(m).val(), Err(_) => final(m).val() == old(m).val() } { unimplemented!() }
#[verifier::external_body] pub struct Cursor { }
impl Cursor { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn new<T: VAsBytes>(b: T) -> (r: Cursor) ensures r@ == b.ab() { unimplemented!() } }
pub enum Ipld { Null, Bool(bool), Integer(i128), Float(u64), String(String), Bytes(Vec<u8>), List(Vec<Ipld>), Map(VMap<String, Ipld>), Link(Cid) }
/// DAG-JSON text of an IPLD value, and back
pub uninterp spec fn dj_text(i: Ipld) -> Option<Seq<u8>>;
pub uninterp spec fn dj_read(b: Seq<u8>) -> Option<Ipld>;
impl Encode<DagJsonCodec> for Ipld { open spec fn s_enc(&self) -> Option<Seq<u8>> { dj_text(*self) } #[verifier::external_body] fn encode(&self, c: DagJsonCodec, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl Decode<DagJsonCodec> for Ipld { open spec fn s_dec(b: Seq<u8>, r: Result<Ipld, Error>) -> bool { match dj_read(b) { Some(i) => r == Ok::<Ipld, Error>(i), None => r is Err } } #[verifier::external_body] fn decode(c: DagJsonCodec, r: &mut Cursor) -> (x: Result<Self, Error>) { unimplemented!() } }
impl Encode<RawCodec> for Ipld { open spec fn s_enc(&self) -> Option<Seq<u8>> { match *self { Ipld::Bytes(b) => Some(b@), _ => None } } #[verifier::external_body] fn encode(&self, c: RawCodec, w: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl Decode<RawCodec> for Ipld { open spec fn s_dec(b: Seq<u8>, r: Result<Ipld, Error>) -> bool { r matches Ok(Ipld::Bytes(v)) && v@ == b } #[verifier::external_body] fn decode(c: RawCodec, r: &mut Cursor) -> (x: Result<Self, Error>) { unimplemented!() } }
impl VEq<Ipld> for Ipld { open spec fn s_eq(&self, o: &Ipld) -> bool { *self == *o } #[verifier::external_body] fn v_eq(&self, o: &Ipld) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn ipld_of<T: ?Sized>(t: &T) -> Option<Ipld>;
pub uninterp spec fn of_ipld<T>(i: Ipld) -> Option<T>;
#[verifier::external_body] pub fn to_ipld<T: ?Sized>(t: &T) -> (r: Result<Ipld, Error>) ensures match ipld_of(t) { Some(i) => r == Ok::<Ipld, Error>(i), None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn from_ipld<T>(i: Ipld) -> (r: Result<T, Error>) ensures match of_ipld::<T>(i) { Some(t) => r == Ok::<T, Error>(t), None => r is Err } { unimplemented!() }
/// a value in DAG-JSON, and the value some DAG-JSON denotes
pub open spec fn dj_enc<T: ?Sized>(t: &T) -> Option<Seq<u8>> { match ipld_of(t) { Some(i) => match dj_text(i) { Some(b) => if dj_read(b) == Some(i) { Some(b) } else { None }, None => None }, None => None } }
pub open spec fn dj_dec<T>(b: Seq<u8>) -> Option<T> { match dj_read(b) { Some(i) => of_ipld::<T>(i), None => None } }

// ---------- base64, base58, varint ----------
#[derive(Clone, Copy)] pub struct B64 { pub k: u8 }
pub uninterp spec fn b64_enc(k: u8, b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_dec(k: u8, b: Seq<u8>) -> Option<Seq<u8>>;
pub const URL_SAFE_NO_PAD: B64 = B64 { k: 0 };
pub const URL_SAFE: B64 = B64 { k: 1 };
pub const STANDARD: B64 = B64 { k: 2 };
pub const STANDARD_NO_PAD: B64 = B64 { k: 3 };
impl B64 {
    #[verifier::external_body] pub fn encode<T: VAsBytes>(&self, t: T) -> (r: String) ensures r@ == b64_enc(self.k, t.ab()) { unimplemented!() }
    #[verifier::external_body] pub fn decode<T: VAsBytes>(&self, t: T) -> (r: Result<Vec<u8>, Error>) ensures match b64_dec(self.k, t.ab()) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err } { unimplemented!() }
}
/// unpadded base64url is a bijection onto the text it accepts, and never contains a dot
#[verifier::external_body] pub broadcast proof fn axiom_b64(b: Seq<u8>) ensures #![trigger b64_enc(0, b)] b64_dec(0, utf8(b64_enc(0, b))) == Some(b), !b64_enc(0, b).contains('.') { }
#[verifier::external_body] pub broadcast proof fn axiom_b64_inv(t: Seq<u8>) ensures match #[trigger] b64_dec(0, t) { Some(b) => utf8(b64_enc(0, b)) == t, None => true } { }
pub uninterp spec fn b58_enc(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b58_dec(b: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub broadcast proof fn axiom_b58(b: Seq<u8>) ensures #![trigger b58_enc(b)] b58_dec(utf8(b58_enc(b))) == Some(b) { }
#[verifier::external_body] pub broadcast proof fn axiom_b58_inv(t: Seq<u8>) ensures match #[trigger] b58_dec(t) { Some(b) => utf8(b58_enc(b)) == t, None => true } { }
pub struct B58Dec { pub b: Ghost<Seq<u8>> }
pub struct B58Enc { pub b: Ghost<Seq<u8>> }
pub fn bs58__decode<T: VAsBytes>(t: T) -> (r: B58Dec) ensures r.b@ == t.ab() { B58Dec { b: Ghost(t.ab()) } }
pub fn bs58__encode<T: VAsBytes>(t: T) -> (r: B58Enc) ensures r.b@ == t.ab() { B58Enc { b: Ghost(t.ab()) } }
impl B58Dec { #[verifier::external_body] pub fn into_vec(self) -> (r: Result<Vec<u8>, Error>) ensures match b58_dec(self.b@) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err } { unimplemented!() } }
impl B58Enc { #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures r@ == b58_enc(self.b@) { unimplemented!() } }
/// LEB128 bytes of a number; what a buffer starts with (value, length)
pub uninterp spec fn uv(n: int) -> Seq<u8>;
pub uninterp spec fn uv_read(b: Seq<u8>) -> Option<(u64, int)>;
#[verifier::external_body] pub broadcast proof fn axiom_uv(n: int, rest: Seq<u8>) requires 0 <= n <= u64::MAX ensures #[trigger] uv_read(uv(n) + rest) == Some((n as u64, uv(n).len() as int)) { }
#[verifier::external_body] pub broadcast proof fn axiom_uv_len(b: Seq<u8>) ensures match #[trigger] uv_read(b) { Some((n, k)) => 0 < k <= b.len(), None => true } { }
#[verifier::external_body] pub fn unsigned_varint__decode__u64(b: &[u8]) -> (r: Result<(u64, &[u8]), Error>) ensures match uv_read(b@) { Some((n, k)) => r is Ok && r->Ok_0.0 == n && r->Ok_0.1@ == b@.subrange(k, b@.len() as int), None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn unsigned_varint__decode__usize(b: &[u8]) -> (r: Result<(usize, &[u8]), Error>) ensures match uv_read(b@) { Some((n, k)) => r is Ok && r->Ok_0.0 == n && r->Ok_0.1@ == b@.subrange(k, b@.len() as int), None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn unsigned_varint__encode__u64_buffer() -> [u8; 10] { unimplemented!() }
#[verifier::external_body] pub fn unsigned_varint__encode__usize_buffer() -> [u8; 10] { unimplemented!() }
#[verifier::external_body] pub fn unsigned_varint__encode__u64(n: u64, b: &mut [u8; 10]) -> (r: &[u8]) ensures r@ == uv(n as int) { unimplemented!() }
#[verifier::external_body] pub fn unsigned_varint__encode__usize(n: usize, b: &mut [u8; 10]) -> (r: &[u8]) ensures r@ == uv(n as int) { unimplemented!() }

// ---------- time, randomness ----------
/// a number of seconds read from the system clock
pub uninterp spec fn clock_secs(n: u64) -> bool;
#[verifier::external_body] pub struct SystemTime { }
#[verifier::external_body] pub struct Duration { }
impl SystemTime {
    pub uninterp spec fn reading(&self) -> bool;
    #[verifier::external_body] pub exec const UNIX_EPOCH: SystemTime ensures true { SystemTime { } }
    #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures r.reading() { unimplemented!() }
    /// the system clock is assumed not to be set before 1970
    #[verifier::external_body] pub fn duration_since(&self, e: SystemTime) -> (r: Result<Duration, Error>) ensures r is Ok, r->Ok_0.reading() == self.reading() { unimplemented!() }
}
impl Duration {
    pub uninterp spec fn reading(&self) -> bool;
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures self.reading() ==> clock_secs(r) { unimplemented!() }
}
#[verifier::external_body] pub struct Rng { }
#[verifier::external_body] pub fn rand__thread_rng() -> Rng { unimplemented!() }
impl Rng { #[verifier::external_body] pub fn gen<T>(&mut self) -> T { unimplemented!() } }

pub broadcast group g_deps { axiom_url_prf, axiom_url_scheme, axiom_cid_text, axiom_cid_v1, axiom_b64, axiom_b64_inv, axiom_b58, axiom_b58_inv, axiom_uv, axiom_uv_len }
} // mod pre
use pre::*;
broadcast use {pre::g_axioms, pre::g_deps};

// ---------- serde_json::to_value, random bytes ----------
pub trait Serialize {} impl<T> Serialize for T {}
pub trait DeserializeOwned {} impl<T> DeserializeOwned for T {}
pub uninterp spec fn ser_value<T>(t: T) -> Option<Value>;
#[verifier::external_body] pub fn serde_json__to_value<T>(t: T) -> (r: Result<Value, Error>) ensures match ser_value(t) { Some(v) => r == Ok::<Value, Error>(v), None => r is Err } { unimplemented!() }
#[verifier::external_body] pub struct ThreadRng { }
#[verifier::external_body] pub fn rand__thread_rng() -> (r: ThreadRng) { unimplemented!() }
impl ThreadRng { #[verifier::external_body] pub fn gen<T>(&mut self) -> (r: T) { unimplemented!() } }
