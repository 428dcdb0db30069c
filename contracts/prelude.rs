#![allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]
#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
pub mod pre {
use vstd::prelude::*;
use std::sync::Arc;
// =====================================================================================
// Prelude: contracts assumed for the standard library and the dependencies.
// Every `external_body` and every axiom below is part of the trusted base and is
// listed in the evidence.
// =====================================================================================

#[derive(Clone, Copy, Debug)]
pub struct Error { }
pub exec fn v_error() -> (r: Error) { Error { } }
#[verifier::external_body] pub fn v_any_error<E>(e: E) -> (r: Error) { unimplemented!() }
#[verifier::external_body] pub fn v_fmt_error() -> (r: Error) { unimplemented!() }
impl Error { #[verifier::external_body] pub fn context(self, c: &str) -> (r: Error) { unimplemented!() } }
/// panic!() and friends: never reachable
pub fn v_panic() -> ! requires false { loop decreases 0int { } }

pub type DagJsonMark = ();

// ---------- equality, order, cloning, conversion ----------
pub trait VEq<R: ?Sized = Self> {
    spec fn s_eq(&self, o: &R) -> bool;
    fn v_eq(&self, o: &R) -> (r: bool) ensures r == self.s_eq(o);
}
impl<'a, 'b, T: VEq<U> + ?Sized, U: ?Sized> VEq<&'b U> for &'a T {
    open spec fn s_eq(&self, o: &&'b U) -> bool { (**self).s_eq(*o) }
    fn v_eq(&self, o: &&'b U) -> (r: bool) { (**self).v_eq(*o) }
}
impl VEq<str> for str { open spec fn s_eq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VEq<String> for String { open spec fn s_eq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq<str> for String { open spec fn s_eq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<&'a str> for String { open spec fn s_eq(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<String> for &'a str { open spec fn s_eq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq<String> for str { open spec fn s_eq(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VEq<u64> for u64 { open spec fn s_eq(&self, o: &u64) -> bool { *self == *o } fn v_eq(&self, o: &u64) -> (r: bool) { *self == *o } }
impl VEq<usize> for usize { open spec fn s_eq(&self, o: &usize) -> bool { *self == *o } fn v_eq(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VEq<u8> for u8 { open spec fn s_eq(&self, o: &u8) -> bool { *self == *o } fn v_eq(&self, o: &u8) -> (r: bool) { *self == *o } }
impl VEq<char> for char { open spec fn s_eq(&self, o: &char) -> bool { *self == *o } fn v_eq(&self, o: &char) -> (r: bool) { *self == *o } }
impl VEq<bool> for bool { open spec fn s_eq(&self, o: &bool) -> bool { *self == *o } fn v_eq(&self, o: &bool) -> (r: bool) { *self == *o } }
impl<A: VEq<A>, B: VEq<B>> VEq<(A, B)> for (A, B) { open spec fn s_eq(&self, o: &(A, B)) -> bool { self.0.s_eq(&o.0) && self.1.s_eq(&o.1) } fn v_eq(&self, o: &(A, B)) -> (r: bool) { self.0.v_eq(&o.0) && self.1.v_eq(&o.1) } }
pub open spec fn seq_eq<T: VEq<T>>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).s_eq(&b[i]) }
impl VEq<Vec<String>> for Vec<String> { open spec fn s_eq(&self, o: &Vec<String>) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &Vec<String>) -> (r: bool) { unimplemented!() } }
impl VEq<[u8]> for [u8] { open spec fn s_eq(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
impl VEq<Vec<u8>> for Vec<u8> { open spec fn s_eq(&self, o: &Vec<u8>) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &Vec<u8>) -> (r: bool) { unimplemented!() } }
impl<T: VEq<T>> VEq<Option<T>> for Option<T> {
    open spec fn s_eq(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.s_eq(&b), (None, None) => true, _ => false } }
    fn v_eq(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.v_eq(b), (None, None) => true, _ => false } }
}
pub trait VOrd<R: ?Sized = Self> {
    spec fn s_le(&self, o: &R) -> bool;
    spec fn s_lt(&self, o: &R) -> bool;
    spec fn s_ge(&self, o: &R) -> bool;
    spec fn s_gt(&self, o: &R) -> bool;
    fn v_le(&self, o: &R) -> (r: bool) ensures r == self.s_le(o);
    fn v_lt(&self, o: &R) -> (r: bool) ensures r == self.s_lt(o);
    fn v_ge(&self, o: &R) -> (r: bool) ensures r == self.s_ge(o);
    fn v_gt(&self, o: &R) -> (r: bool) ensures r == self.s_gt(o);
}
impl VOrd<u64> for u64 {
    open spec fn s_le(&self, o: &u64) -> bool { *self <= *o } open spec fn s_lt(&self, o: &u64) -> bool { *self < *o }
    open spec fn s_ge(&self, o: &u64) -> bool { *self >= *o } open spec fn s_gt(&self, o: &u64) -> bool { *self > *o }
    fn v_le(&self, o: &u64) -> (r: bool) { *self <= *o } fn v_lt(&self, o: &u64) -> (r: bool) { *self < *o }
    fn v_ge(&self, o: &u64) -> (r: bool) { *self >= *o } fn v_gt(&self, o: &u64) -> (r: bool) { *self > *o }
}
impl VOrd<usize> for usize {
    open spec fn s_le(&self, o: &usize) -> bool { *self <= *o } open spec fn s_lt(&self, o: &usize) -> bool { *self < *o }
    open spec fn s_ge(&self, o: &usize) -> bool { *self >= *o } open spec fn s_gt(&self, o: &usize) -> bool { *self > *o }
    fn v_le(&self, o: &usize) -> (r: bool) { *self <= *o } fn v_lt(&self, o: &usize) -> (r: bool) { *self < *o }
    fn v_ge(&self, o: &usize) -> (r: bool) { *self >= *o } fn v_gt(&self, o: &usize) -> (r: bool) { *self > *o }
}
impl<T: VOrd<T>> VOrd<Option<T>> for Option<T> {
    open spec fn s_le(&self, o: &Option<T>) -> bool { match (*self, *o) { (None, _) => true, (Some(a), Some(b)) => a.s_le(&b), _ => false } }
    open spec fn s_lt(&self, o: &Option<T>) -> bool { match (*self, *o) { (None, Some(_)) => true, (Some(a), Some(b)) => a.s_lt(&b), _ => false } }
    open spec fn s_ge(&self, o: &Option<T>) -> bool { match (*self, *o) { (_, None) => true, (Some(a), Some(b)) => a.s_ge(&b), _ => false } }
    open spec fn s_gt(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(_), None) => true, (Some(a), Some(b)) => a.s_gt(&b), _ => false } }
    fn v_le(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (None, _) => true, (Some(a), Some(b)) => a.v_le(b), _ => false } }
    fn v_lt(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (None, Some(_)) => true, (Some(a), Some(b)) => a.v_lt(b), _ => false } }
    fn v_ge(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (_, None) => true, (Some(a), Some(b)) => a.v_ge(b), _ => false } }
    fn v_gt(&self, o: &Option<T>) -> (r: bool) { match (self, o) { (Some(_), None) => true, (Some(a), Some(b)) => a.v_gt(b), _ => false } }
}
impl<'a, 'b, T: VOrd<U> + ?Sized, U: ?Sized> VOrd<&'b U> for &'a T {
    open spec fn s_le(&self, o: &&'b U) -> bool { (**self).s_le(*o) } open spec fn s_lt(&self, o: &&'b U) -> bool { (**self).s_lt(*o) }
    open spec fn s_ge(&self, o: &&'b U) -> bool { (**self).s_ge(*o) } open spec fn s_gt(&self, o: &&'b U) -> bool { (**self).s_gt(*o) }
    fn v_le(&self, o: &&'b U) -> (r: bool) { (**self).v_le(*o) } fn v_lt(&self, o: &&'b U) -> (r: bool) { (**self).v_lt(*o) }
    fn v_ge(&self, o: &&'b U) -> (r: bool) { (**self).v_ge(*o) } fn v_gt(&self, o: &&'b U) -> (r: bool) { (**self).v_gt(*o) }
}
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> (r: String) { unimplemented!() } }
impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: VClone> VClone for Option<T> { fn v_clone(&self) -> (r: Option<T>) { match self { Some(x) => Some(x.v_clone()), None => None } } }
impl VClone for u64 { fn v_clone(&self) -> (r: u64) { *self } }
impl VClone for usize { fn v_clone(&self) -> (r: usize) { *self } }
impl VClone for u8 { fn v_clone(&self) -> (r: u8) { *self } }
impl VClone for u32 { fn v_clone(&self) -> (r: u32) { *self } }
impl VClone for bool { fn v_clone(&self) -> (r: bool) { *self } }
impl VClone for char { fn v_clone(&self) -> (r: char) { *self } }
impl<A: VClone, B: VClone> VClone for (A, B) { fn v_clone(&self) -> (r: (A, B)) { (self.0.v_clone(), self.1.v_clone()) } }
impl<'a, T: ?Sized> VClone for &'a T { fn v_clone(&self) -> (r: &'a T) { *self } }
impl<T> VClone for Arc<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Arc<T>) { unimplemented!() } }
impl<K: VKey, V: VClone> VClone for VMap<K, V> { #[verifier::external_body] fn v_clone(&self) -> (r: VMap<K, V>) { unimplemented!() } }
impl<K: VKey> VClone for VSet<K> { #[verifier::external_body] fn v_clone(&self) -> (r: VSet<K>) { unimplemented!() } }
pub trait VOwned { type Own; spec fn s_owned(&self, r: &Self::Own) -> bool; fn v_to_owned(&self) -> (r: Self::Own) ensures self.s_owned(&r); }
impl VOwned for str { type Own = String; open spec fn s_owned(&self, r: &String) -> bool { r@ == self@ } #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() } }
impl<T: VClone> VOwned for T { type Own = T; open spec fn s_owned(&self, r: &T) -> bool { *r == *self } fn v_to_owned(&self) -> (r: T) { self.v_clone() } }

pub trait VTryFrom<T>: Sized { spec fn s_try_from(t: T, r: Result<Self, Error>) -> bool; fn v_try_from(t: T) -> (r: Result<Self, Error>) ensures Self::s_try_from(t, r); }
pub trait VTryInto<T>: Sized { spec fn s_try_into(self, r: Result<T, Error>) -> bool; fn v_try_into(self) -> (r: Result<T, Error>) ensures self.s_try_into(r); }
impl<A, B: VTryFrom<A>> VTryInto<B> for A { open spec fn s_try_into(self, r: Result<B, Error>) -> bool { B::s_try_from(self, r) } fn v_try_into(self) -> (r: Result<B, Error>) { B::v_try_from(self) } }
pub trait VFrom<T>: Sized { spec fn s_from(t: T, r: Self) -> bool; fn v_from(t: T) -> (r: Self) ensures Self::s_from(t, r); }
pub trait VInto<T>: Sized { spec fn s_into(self, r: T) -> bool; fn v_into(self) -> (r: T) ensures self.s_into(r); }
impl<A, B: VFrom<A>> VInto<B> for A { open spec fn s_into(self, r: B) -> bool { B::s_from(self, r) } fn v_into(self) -> (r: B) { B::v_from(self) } }
pub trait VFromStr: Sized { spec fn s_from_str(s: Seq<char>, r: Result<Self, Error>) -> bool; fn v_from_str(s: &str) -> (r: Result<Self, Error>) ensures Self::s_from_str(s@, r); }
pub trait VToString { spec fn s_str(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.s_str(); }
impl<'a> VFrom<&'a str> for String { open spec fn s_from(t: &'a str, r: String) -> bool { r@ == t@ } #[verifier::external_body] fn v_from(t: &'a str) -> (r: String) { unimplemented!() } }
impl<'a> VFrom<&'a String> for String { open spec fn s_from(t: &'a String, r: String) -> bool { r@ == t@ } #[verifier::external_body] fn v_from(t: &'a String) -> (r: String) { unimplemented!() } }
impl<'a> VFrom<&'a [u8]> for Vec<u8> { open spec fn s_from(t: &'a [u8], r: Vec<u8>) -> bool { r@ == t@ } #[verifier::external_body] fn v_from(t: &'a [u8]) -> (r: Vec<u8>) { unimplemented!() } }
impl VToString for str { open spec fn s_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for String { open spec fn s_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: VToString + ?Sized> VToString for &'a T { open spec fn s_str(&self) -> Seq<char> { (**self).s_str() } fn v_to_string(&self) -> (r: String) { (**self).v_to_string() } }
/// decimal text of a number, and the std parser for it
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn parse_dec(s: Seq<char>) -> Option<int>;
#[verifier::external_body] pub broadcast proof fn axiom_dec(n: int) requires 0 <= n <= usize::MAX ensures #[trigger] parse_dec(dec(n)) == Some(n), dec(n) != "*"@ { }
impl VToString for usize { open spec fn s_str(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for u64 { open spec fn s_str(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VFromStr for usize { open spec fn s_from_str(s: Seq<char>, r: Result<usize, Error>) -> bool { match parse_dec(s) { Some(n) => r == Ok::<usize, Error>(n as usize) && 0 <= n <= usize::MAX, None => r is Err } } #[verifier::external_body] fn v_from_str(s: &str) -> (r: Result<usize, Error>) { unimplemented!() } }

// ---------- machine arithmetic ----------
pub trait VNum: Sized {
    spec fn nv(&self) -> int; spec fn nmax() -> int;
    fn v_saturating_add(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() + o.nv() > Self::nmax() { Self::nmax() } else { self.nv() + o.nv() });
    fn v_saturating_sub(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() < o.nv() { 0 } else { self.nv() - o.nv() });
    fn v_wrapping_add(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() + o.nv() > Self::nmax() { self.nv() + o.nv() - Self::nmax() - 1 } else { self.nv() + o.nv() });
    fn v_wrapping_sub(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() < o.nv() { self.nv() - o.nv() + Self::nmax() + 1 } else { self.nv() - o.nv() });
    fn v_checked_add(self, o: Self) -> (r: Option<Self>) ensures match r { Some(x) => x.nv() == self.nv() + o.nv(), None => self.nv() + o.nv() > Self::nmax() };
    fn v_checked_sub(self, o: Self) -> (r: Option<Self>) ensures match r { Some(x) => x.nv() == self.nv() - o.nv(), None => self.nv() < o.nv() };
    fn v_min(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() < o.nv() { self.nv() } else { o.nv() });
    fn v_max(self, o: Self) -> (r: Self) ensures r.nv() == (if self.nv() < o.nv() { o.nv() } else { self.nv() });
}
impl VNum for u64 { open spec fn nv(&self) -> int { *self as int } open spec fn nmax() -> int { u64::MAX as int }
    fn v_saturating_add(self, o: u64) -> (r: u64) { if o > u64::MAX - self { u64::MAX } else { self + o } }
    fn v_saturating_sub(self, o: u64) -> (r: u64) { if self < o { 0 } else { self - o } }
    #[verifier::external_body] fn v_wrapping_add(self, o: u64) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn v_wrapping_sub(self, o: u64) -> (r: u64) { unimplemented!() }
    fn v_checked_add(self, o: u64) -> (r: Option<u64>) { if o > u64::MAX - self { None } else { Some(self + o) } }
    fn v_checked_sub(self, o: u64) -> (r: Option<u64>) { if self < o { None } else { Some(self - o) } }
    fn v_min(self, o: u64) -> (r: u64) { if self < o { self } else { o } }
    fn v_max(self, o: u64) -> (r: u64) { if self < o { o } else { self } }
}
impl VNum for usize { open spec fn nv(&self) -> int { *self as int } open spec fn nmax() -> int { usize::MAX as int }
    fn v_saturating_add(self, o: usize) -> (r: usize) { if o > usize::MAX - self { usize::MAX } else { self + o } }
    fn v_saturating_sub(self, o: usize) -> (r: usize) { if self < o { 0 } else { self - o } }
    #[verifier::external_body] fn v_wrapping_add(self, o: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_wrapping_sub(self, o: usize) -> (r: usize) { unimplemented!() }
    fn v_checked_add(self, o: usize) -> (r: Option<usize>) { if o > usize::MAX - self { None } else { Some(self + o) } }
    fn v_checked_sub(self, o: usize) -> (r: Option<usize>) { if self < o { None } else { Some(self - o) } }
    fn v_min(self, o: usize) -> (r: usize) { if self < o { self } else { o } }
    fn v_max(self, o: usize) -> (r: usize) { if self < o { o } else { self } }
}
// ---------- strings ----------
#[verifier::external_body] pub broadcast proof fn axiom_string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body] pub broadcast proof fn axiom_vecu8_ext(a: Vec<u8>, b: Vec<u8>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body] pub broadcast proof fn axiom_vecstr_ext(a: Vec<String>, b: Vec<String>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
/// UTF-8 of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body] pub broadcast proof fn axiom_utf8(s: Seq<char>) ensures utf8_text(#[trigger] utf8(s)) == Some(s) { }
#[verifier::external_body] pub broadcast proof fn axiom_utf8_text(b: Seq<u8>) ensures match #[trigger] utf8_text(b) { Some(s) => utf8(s) == b, None => true } { }
/// byte length of a text
pub open spec fn blen(s: Seq<char>) -> int { utf8(s).len() as int }
#[verifier::external_body] pub broadcast proof fn axiom_utf8_cat(a: Seq<char>, b: Seq<char>) ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b) { }
#[verifier::external_body] pub broadcast proof fn axiom_utf8_ascii(a: Seq<char>) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] as u32) < 128 ensures #[trigger] utf8(a).len() == a.len() { }
#[verifier::external_body] pub broadcast proof fn axiom_utf8_len(a: Seq<char>) ensures #![trigger utf8(a)] a.len() <= utf8(a).len() <= 4 * a.len() { }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_prefix8(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
/// text split at every occurrence of a character
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let t = split(s.drop_last(), c);
        if s.last() == c { t.push(Seq::<char>::empty()) } else { t.update(t.len() - 1, t.last().push(s.last())) }
    }
}
pub open spec fn join(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::<char>::empty() } else if p.len() == 1 { p[0] } else { join(p.drop_last(), sep) + sep + p.last() }
}
pub open spec fn views<'a>(s: Seq<&'a str>) -> Seq<Seq<char>> { s.map(|i: int, x: &'a str| x@) }
/// a text as a String
pub uninterp spec fn mk_str(s: Seq<char>) -> String;
#[verifier::external_body] pub broadcast proof fn axiom_mk_str(s: Seq<char>) ensures (#[trigger] mk_str(s))@ == s { }
pub trait VJoin { fn v_join(&self, sep: &str) -> (r: String) ensures r@ == join(self.parts(), sep@); spec fn parts(&self) -> Seq<Seq<char>>; }
impl<'a> VJoin for Vec<&'a str> { open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a, const N: usize> VJoin for [&'a str; N] { open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<const N: usize> VJoin for [String; N] { open spec fn parts(&self) -> Seq<Seq<char>> { self@.map(|i: int, x: String| x@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VJoin for Vec<String> { open spec fn parts(&self) -> Seq<Seq<char>> { self@.map(|i: int, x: String| x@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
/// joins of two and of three parts
pub broadcast proof fn lem_join_2(p: Seq<Seq<char>>, sep: Seq<char>) requires p.len() == 2 ensures #[trigger] join(p, sep) == p[0] + sep + p[1] { reveal_with_fuel(join, 3); assert(p.drop_last()[0] == p[0]); }
pub broadcast proof fn lem_join_3(p: Seq<Seq<char>>, sep: Seq<char>) requires p.len() == 3 ensures #[trigger] join(p, sep) == p[0] + sep + p[1] + sep + p[2] { let q = p.drop_last(); lem_join_2(q, sep); }
pub proof fn lem_split_len(s: Seq<char>, c: char) ensures split(s, c).len() > 0 decreases s.len() { if s.len() > 0 { lem_split_len(s.drop_last(), c); } }
/// joining the parts of a split text gives it back
pub proof fn lem_join_split(s: Seq<char>, c: char) ensures join(split(s, c), seq![c]) == s decreases s.len() {
    lem_split_len(s, c);
    if s.len() > 0 {
        lem_join_split(s.drop_last(), c); lem_split_len(s.drop_last(), c);
        let t = split(s.drop_last(), c); let u = split(s, c);
        if s.last() == c { assert(u.drop_last() =~= t); assert(join(u, seq![c]) =~= s); }
        else { assert(u.drop_last() =~= t.drop_last()); if t.len() == 1 { assert(join(u, seq![c]) =~= s); } else { assert(join(u, seq![c]) =~= join(t.drop_last(), seq![c]) + seq![c] + t.last().push(s.last())); assert(join(u, seq![c]) =~= s.drop_last().push(s.last())); assert(s =~= s.drop_last().push(s.last())); } }
    }
}
/// splitting after a first part without the separator
pub proof fn lem_split_cons(a: Seq<char>, c: char, b: Seq<char>) requires !a.contains(c) ensures split(a, c) == seq![a], split(a + seq![c] + b, c) == seq![a] + split(b, c) decreases a.len(), b.len() {
    if b.len() == 0 {
        if a.len() > 0 { assert(a.contains(a.last())); assert forall|x: char| a.drop_last().contains(x) implies a.contains(x) by { let i = choose|i: int| 0 <= i < a.drop_last().len() && a.drop_last()[i] == x; assert(a[i] == x); } lem_split_cons(a.drop_last(), c, b); assert(a.last() != c); assert(split(a, c) =~= seq![a.drop_last().push(a.last())]); assert(a.drop_last().push(a.last()) =~= a); } else { assert(a =~= Seq::empty()); }
        assert(split(a, c) =~= seq![a]);
        assert((a + seq![c] + b).drop_last() =~= a); assert(split(a + seq![c] + b, c) =~= seq![a] + split(b, c));
    } else {
        lem_split_cons(a, c, b.drop_last()); lem_split_len(b.drop_last(), c);
        assert((a + seq![c] + b).drop_last() =~= a + seq![c] + b.drop_last());
        assert(split(a + seq![c] + b, c) =~= seq![a] + split(b, c));
    }
}
/// joining after a first part
pub proof fn lem_join_cons(a: Seq<char>, p: Seq<Seq<char>>, sep: Seq<char>) requires p.len() > 0 ensures join(seq![a] + p, sep) == a + sep + join(p, sep) decreases p.len() {
    let q = seq![a] + p; assert(q.drop_last() =~= seq![a] + p.drop_last()); assert(q.last() == p.last());
    if p.len() == 1 { assert(p.drop_last() =~= Seq::empty()); assert(q.drop_last() =~= seq![a]); assert(join(q.drop_last(), sep) == a); assert(join(q, sep) =~= a + sep + p[0]); } else { lem_join_cons(a, p.drop_last(), sep); assert(join(q, sep) =~= a + sep + join(p, sep)); }
}
/// the first part of a split text is a prefix of it
pub proof fn lem_split_first(s: Seq<char>, c: char) ensures ({ let t = split(s, c); t.len() > 0 && is_prefix(t[0], s) && !t[0].contains(c) && (t.len() == 1 ==> t[0] == s) && (t.len() > 1 ==> s == t[0] + seq![c] + join(t.subrange(1, t.len() as int), seq![c]) && split(join(t.subrange(1, t.len() as int), seq![c]), c) == t.subrange(1, t.len() as int)) }) decreases s.len() {
    lem_split_len(s, c); let t = split(s, c);
    if s.contains(c) {
        let i = s.index_of_first(c)->Some_0; s.index_of_first_ensures(c);
        let a = s.subrange(0, i); let b = s.subrange(i + 1, s.len() as int);
        assert(!a.contains(c)) by { if a.contains(c) { let k = choose|k: int| 0 <= k < a.len() && a[k] == c; assert(s[k] == c); } }
        assert(s =~= a + seq![c] + b); lem_split_cons(a, c, b); lem_join_split(b, c); lem_split_len(b, c);
        assert(t.subrange(1, t.len() as int) =~= split(b, c)); assert(t[0] == a);
    } else { lem_split_cons(s, c, Seq::empty()); assert(s.subrange(0, s.len() as int) =~= s); }
}
/// the first three parts of a text, and the rest
pub proof fn lem_split3(t: Seq<char>, c: char) requires split(t, c).len() >= 3
    ensures ({ let p = split(t, c); let s = seq![c]; !p[0].contains(c) && !p[1].contains(c) && !p[2].contains(c)
        && (p.len() == 3 ==> t == p[0] + s + (p[1] + s + p[2]))
        && (p.len() > 3 ==> t == p[0] + s + (p[1] + s + (p[2] + s + join(p.subrange(3, p.len() as int), s)))) })
{
    let s = seq![c]; let p = split(t, c);
    lem_split_first(t, c); let p1 = p.subrange(1, p.len() as int); let t1 = join(p1, s);
    lem_split_first(t1, c); let p2 = p1.subrange(1, p1.len() as int); let t2 = join(p2, s);
    lem_split_first(t2, c);
    assert(p1[0] == p[1]); assert(p2[0] == p[2]);
    assert(p2.subrange(1, p2.len() as int) =~= p.subrange(3, p.len() as int));
}
#[verifier::external_body] pub fn v_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_push_str(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn v_push_disp<T: VToString + ?Sized>(f: &mut String, x: &T) ensures final(f)@ == old(f)@ + x.s_str() { unimplemented!() }
#[verifier::external_body] pub fn v_push_opaque(f: &mut String) { unimplemented!() }
#[verifier::external_body] pub fn v_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Error>) ensures match utf8_text(b@) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn v_string_from_utf8(b: Vec<u8>) -> (r: Result<String, Error>) ensures match utf8_text(b@) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err } { unimplemented!() }
/// from_utf8_lossy: the text itself when the bytes are UTF-8
pub uninterp spec fn lossy_text(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn axiom_lossy(b: Seq<u8>) ensures utf8_text(b) matches Some(s) ==> #[trigger] lossy_text(b) == s { }
#[verifier::external_body] pub fn v_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy_text(b@) { unimplemented!() }
#[verifier::external_body] pub struct Formatter { }
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    /// a formatter on an empty string, as std's to_string makes it; writing to it does not fail
    #[verifier::external_body] pub fn v_new() -> (r: Formatter) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn v_write_string(&mut self, s: String) -> (r: Result<(), Error>) ensures final(self)@ == old(self)@ + s@, r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), Error>) ensures final(self)@ == old(self)@ + s@, r is Ok { unimplemented!() }
}
/// patterns of str methods: a text or a character
pub trait VPat: Sized {
    spec fn pat_pre(self, s: Seq<char>) -> bool; spec fn pat_post(self, s: Seq<char>) -> bool; spec fn pat_len(self) -> int;
    spec fn pat_in(self, s: Seq<char>) -> bool; spec fn pat_split(self, s: Seq<char>) -> Seq<Seq<char>>; spec fn pat_seq(self) -> Seq<char>;
}
pub uninterp spec fn split_at_text(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uni_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uni_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn has_text(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
impl<'a> VPat for &'a str {
    open spec fn pat_pre(self, s: Seq<char>) -> bool { is_prefix(self@, s) } open spec fn pat_post(self, s: Seq<char>) -> bool { is_suffix(self@, s) } open spec fn pat_len(self) -> int { self@.len() as int }
    open spec fn pat_in(self, s: Seq<char>) -> bool { has_text(s, self@) } open spec fn pat_split(self, s: Seq<char>) -> Seq<Seq<char>> { if self@.len() == 1 { split(s, self@[0]) } else { split_at_text(s, self@) } } open spec fn pat_seq(self) -> Seq<char> { self@ }
}
impl<'a> VPat for &'a String {
    open spec fn pat_pre(self, s: Seq<char>) -> bool { is_prefix(self@, s) } open spec fn pat_post(self, s: Seq<char>) -> bool { is_suffix(self@, s) } open spec fn pat_len(self) -> int { self@.len() as int }
    open spec fn pat_in(self, s: Seq<char>) -> bool { has_text(s, self@) } open spec fn pat_split(self, s: Seq<char>) -> Seq<Seq<char>> { if self@.len() == 1 { split(s, self@[0]) } else { split_at_text(s, self@) } } open spec fn pat_seq(self) -> Seq<char> { self@ }
}
impl<'a, 'b> VPat for &'a &'b str {
    open spec fn pat_pre(self, s: Seq<char>) -> bool { is_prefix((*self)@, s) } open spec fn pat_post(self, s: Seq<char>) -> bool { is_suffix((*self)@, s) } open spec fn pat_len(self) -> int { (*self)@.len() as int }
    open spec fn pat_in(self, s: Seq<char>) -> bool { has_text(s, (*self)@) } open spec fn pat_split(self, s: Seq<char>) -> Seq<Seq<char>> { if (*self)@.len() == 1 { split(s, (*self)@[0]) } else { split_at_text(s, (*self)@) } } open spec fn pat_seq(self) -> Seq<char> { (*self)@ }
}
impl VPat for char {
    open spec fn pat_pre(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self } open spec fn pat_post(self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == self } open spec fn pat_len(self) -> int { 1 }
    open spec fn pat_in(self, s: Seq<char>) -> bool { s.contains(self) } open spec fn pat_split(self, s: Seq<char>) -> Seq<Seq<char>> { split(s, self) } open spec fn pat_seq(self) -> Seq<char> { seq![self] }
}
pub trait VStrOps {
    spec fn sv(&self) -> Seq<char>;
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pat_pre(self.sv());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pat_post(self.sv());
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures match r { Some(t) => p.pat_pre(self.sv()) && self.sv() == self.sv().subrange(0, p.pat_len()) + t@ && t@ == self.sv().subrange(p.pat_len(), self.sv().len() as int), None => !p.pat_pre(self.sv()) };
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures match r { Some(t) => p.pat_post(self.sv()) && t@ == self.sv().subrange(0, self.sv().len() - p.pat_len()), None => !p.pat_post(self.sv()) };
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pat_in(self.sv());
    fn v_trim(&self) -> (r: &str) ensures r@ == trimmed(self.sv());
    fn v_trim_start(&self) -> (r: &str) ensures r@ == trimmed_start(self.sv());
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trimmed_end(self.sv());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) ensures is_suffix(r@, self.sv()), !p.pat_pre(self.sv()) ==> r@ == self.sv();
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) ensures is_prefix(r@, self.sv()), !p.pat_post(self.sv()) ==> r@ == self.sv();
    fn v_trim_matches<P: VPat>(&self, p: P) -> (r: &str) ensures !p.pat_pre(self.sv()) && !p.pat_post(self.sv()) ==> r@ == self.sv();
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == uni_lower(self.sv());
    fn v_to_uppercase(&self) -> (r: String) ensures r@ == uni_upper(self.sv());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self.sv());
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == ascii_upper(self.sv());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self.sv()) == ascii_lower(o@));
    fn v_replace<P: VPat>(&self, p: P, t: &str) -> (r: String) ensures r@ == replaced(self.sv(), p.pat_seq(), t@);
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) ensures match r { Some(i) => p.pat_in(self.sv()) && i <= blen(self.sv()), None => !p.pat_in(self.sv()) };
    fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) ensures match r { Some(i) => p.pat_in(self.sv()) && i <= blen(self.sv()), None => !p.pat_in(self.sv()) };
    fn v_chars(&self) -> (r: VIter<char>) ensures r.pos() == 0, r.seq() == self.sv();
    fn v_bytes(&self) -> (r: VIter<u8>) ensures r.pos() == 0, r.seq() == utf8(self.sv());
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.sv());
    fn v_split<'a, P: VPat>(&'a self, c: P) -> (r: VIter<&'a str>) ensures r.pos() == 0, views(r.seq()) == c.pat_split(self.sv());
    fn v_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures match r { Some((a, b)) => self.sv() == a@ + seq![c] + b@ && !a@.contains(c), None => !self.sv().contains(c) };
    fn v_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures match r { Some((a, b)) => self.sv() == a@ + seq![c] + b@ && !b@.contains(c), None => !self.sv().contains(c) };
    fn as_str(&self) -> (r: &str) ensures r@ == self.sv();
}
impl VStrOps for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_split<'a, P: VPat>(&'a self, c: P) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn as_str(&self) -> (r: &str) { unimplemented!() }
}
impl VStrOps for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_split<'a, P: VPat>(&'a self, c: P) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn as_str(&self) -> (r: &str) { unimplemented!() }
}
pub trait VStrMut { fn v_push_str(&mut self, t: &str); fn v_push_char(&mut self, c: char); fn v_clear_str(&mut self); }
impl VStrMut for String {
    #[verifier::external_body] fn v_push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body] fn v_push_char(&mut self, c: char) ensures final(self)@ == old(self)@ + seq![c] { unimplemented!() }
    #[verifier::external_body] fn v_clear_str(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() }
}
#[verifier::external_body] pub fn v_str_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VIntoBytes: Sized { fn v_into_bytes(self) -> (r: Vec<u8>); }
impl VIntoBytes for String { #[verifier::external_body] fn v_into_bytes(self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { unimplemented!() } }
pub trait VDefault: Sized { spec fn s_default(r: Self) -> bool; fn v_default() -> (r: Self) ensures Self::s_default(r); }
impl VDefault for String { open spec fn s_default(r: String) -> bool { r@ == Seq::<char>::empty() } fn v_default() -> (r: String) { v_string_new() } }
impl VDefault for u64 { open spec fn s_default(r: u64) -> bool { r == 0 } fn v_default() -> (r: u64) { 0 } }
impl VDefault for usize { open spec fn s_default(r: usize) -> bool { r == 0 } fn v_default() -> (r: usize) { 0 } }
impl VDefault for bool { open spec fn s_default(r: bool) -> bool { !r } fn v_default() -> (r: bool) { false } }
impl<T> VDefault for Vec<T> { open spec fn s_default(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() } fn v_default() -> (r: Vec<T>) { Vec::new() } }
impl<T> VDefault for Option<T> { open spec fn s_default(r: Option<T>) -> bool { r is None } fn v_default() -> (r: Option<T>) { None } }
impl<K: VKey, V> VDefault for VMap<K, V> { open spec fn s_default(r: VMap<K, V>) -> bool { r@ == Map::<K::KV, V>::empty() } fn v_default() -> (r: VMap<K, V>) { VMap::new() } }
impl<K: VKey> VDefault for VSet<K> { open spec fn s_default(r: VSet<K>) -> bool { r@ == Set::<K::KV>::empty() } fn v_default() -> (r: VSet<K>) { VSet::new() } }
pub trait VLen { spec fn s_len(&self) -> int; fn v_len(&self) -> (r: usize) ensures r == self.s_len(); fn v_is_empty(&self) -> (r: bool) ensures r == (self.s_len() == 0); }
impl VLen for str { open spec fn s_len(&self) -> int { blen(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VLen for String { open spec fn s_len(&self) -> int { blen(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VLen for Vec<T> { open spec fn s_len(&self) -> int { self@.len() as int } fn v_len(&self) -> (r: usize) { self.len() } fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VLen for [T] { open spec fn s_len(&self) -> int { self@.len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<K: VKey, V> VLen for VMap<K, V> { open spec fn s_len(&self) -> int { self.ents().len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K: VKey> VLen for VSet<K> { open spec fn s_len(&self) -> int { self.ord().len() as int } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VLen for VIter<T> { open spec fn s_len(&self) -> int { self.seq().len() - self.pos() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }

// ---------- slices ----------
pub trait VSlice { type Out: ?Sized; 
    spec fn s_slice_ok(&self, a: int, b: int) -> bool; spec fn s_slice(&self, a: int, b: int, r: &Self::Out) -> bool; spec fn s_end(&self) -> int;
    fn v_slice(&self, a: usize, b: usize) -> (r: &Self::Out) requires self.s_slice_ok(a as int, b as int) ensures self.s_slice(a as int, b as int, r);
    fn v_slice_from(&self, a: usize) -> (r: &Self::Out) requires self.s_slice_ok(a as int, self.s_end()) ensures self.s_slice(a as int, self.s_end(), r); }
impl<T> VSlice for [T] { type Out = [T];
    open spec fn s_slice_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn s_slice(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    open spec fn s_end(&self) -> int { self@.len() as int }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[T]) { unimplemented!() } }
impl<T> VSlice for Vec<T> { type Out = [T];
    open spec fn s_slice_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn s_slice(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    open spec fn s_end(&self) -> int { self@.len() as int }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[T]) { unimplemented!() } }
/// a byte range of a text must lie on character boundaries
pub open spec fn on_char(s: Seq<char>, a: int) -> bool { exists|k: int| 0 <= k <= s.len() && blen(#[trigger] s.subrange(0, k)) == a }
pub open spec fn str_slice(s: Seq<char>, a: int, b: int, r: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i <= j <= s.len() && blen(#[trigger] s.subrange(0, i)) == a && blen(#[trigger] s.subrange(0, j)) == b && r == s.subrange(i, j) }
pub broadcast proof fn lem_prefix_on_char(p: Seq<char>, s: Seq<char>) requires #[trigger] is_prefix(p, s) ensures on_char(s, blen(p)), on_char(s, blen(s)), blen(p) <= blen(s) {
    broadcast use {axiom_utf8_cat, axiom_utf8_len};
    assert(s.subrange(0, p.len() as int) == p);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(p + s.subrange(p.len() as int, s.len() as int) =~= s);
}
pub proof fn lem_blen_inj(s: Seq<char>, i: int, j: int) requires 0 <= i <= s.len(), 0 <= j <= s.len(), blen(s.subrange(0, i)) == blen(s.subrange(0, j)) ensures i == j {
    broadcast use {axiom_utf8_cat, axiom_utf8_len};
    if i < j { assert(s.subrange(0, i) + s.subrange(i, j) =~= s.subrange(0, j)); }
    if j < i { assert(s.subrange(0, j) + s.subrange(j, i) =~= s.subrange(0, i)); }
}
pub broadcast proof fn lem_prefix_slice(p: Seq<char>, s: Seq<char>, a: int, b: int, r: Seq<char>) requires #[trigger] is_prefix(p, s), #[trigger] str_slice(s, a, b, r), a == blen(p), b == blen(s) ensures r == s.subrange(p.len() as int, s.len() as int) {
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && blen(#[trigger] s.subrange(0, i)) == a && blen(#[trigger] s.subrange(0, j)) == b && r == s.subrange(i, j);
    assert(s.subrange(0, s.len() as int) =~= s);
    lem_blen_inj(s, i, p.len() as int); lem_blen_inj(s, j, s.len() as int);
}
pub broadcast proof fn lem_take_drop<T>(s: Seq<T>, k: int) requires 0 < k <= s.len() ensures #![trigger s.subrange(0, k).drop_last()] s.subrange(0, k).drop_last() == s.subrange(0, k - 1) { assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); }
pub broadcast proof fn lem_take_all<T>(s: Seq<T>) ensures #![trigger s.subrange(0, s.len() as int)] s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
pub broadcast proof fn lem_skip_none<T>(s: Seq<T>) ensures #![trigger s.subrange(0, 0)] s.subrange(0, 0) == Seq::<T>::empty() { assert(s.subrange(0, 0) =~= Seq::<T>::empty()); }
impl VSlice for str { type Out = str;
    open spec fn s_slice_ok(&self, a: int, b: int) -> bool { a <= b && on_char(self@, a) && on_char(self@, b) }
    open spec fn s_slice(&self, a: int, b: int, r: &str) -> bool { str_slice(self@, a, b, r@) }
    open spec fn s_end(&self) -> int { blen(self@) }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() } }
impl VSlice for String { type Out = str;
    open spec fn s_slice_ok(&self, a: int, b: int) -> bool { a <= b && on_char(self@, a) && on_char(self@, b) }
    open spec fn s_slice(&self, a: int, b: int, r: &str) -> bool { str_slice(self@, a, b, r@) }
    open spec fn s_end(&self) -> int { blen(self@) }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() } }
pub trait VSeqOps<T> { spec fn sq(&self) -> Seq<T>;
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.sq().len() && *x == self.sq()[i as int], None => i >= self.sq().len() };
    fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) ensures match r { Some(x) => a <= b <= self.sq().len() && x@ == self.sq().subrange(a as int, b as int), None => !(a <= b <= self.sq().len()) };
    fn v_get_from(&self, a: usize) -> (r: Option<&[T]>) ensures match r { Some(x) => a <= self.sq().len() && x@ == self.sq().subrange(a as int, self.sq().len() as int), None => !(a <= self.sq().len()) };
    fn v_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => 0 < self.sq().len() && *x == self.sq()[0], None => self.sq().len() == 0 };
    fn v_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => 0 < self.sq().len() && *x == self.sq().last(), None => self.sq().len() == 0 };
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == refs(self.sq());
    fn v_as_slice(&self) -> (r: &[T]) ensures r@ == self.sq();
    fn v_split_at(&self, m: usize) -> (r: (&[T], &[T])) requires m <= self.sq().len() ensures r.0@ == self.sq().subrange(0, m as int), r.1@ == self.sq().subrange(m as int, self.sq().len() as int);
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T> VSeqOps<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_get_from(&self, a: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_split_at(&self, m: usize) -> (r: (&[T], &[T])) { unimplemented!() } }
impl<T> VSeqOps<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_get_from(&self, a: usize) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_split_at(&self, m: usize) -> (r: (&[T], &[T])) { unimplemented!() } }
/// searching and reshaping sequences
pub open spec fn has_elem<T: VEq<T>>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).s_eq(&x) }
pub trait VFindElem<T: VEq<T>> { spec fn elems(&self) -> Seq<T>; fn v_contains(&self, x: &T) -> (r: bool) ensures r == has_elem(self.elems(), *x); }
impl<T: VEq<T>> VFindElem<T> for Vec<T> { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
impl<T: VEq<T>> VFindElem<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
impl<T: VEq<T>, const N: usize> VFindElem<T> for [T; N] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn s_dedup<T>(s: Seq<T>) -> Seq<T>;
pub uninterp spec fn s_sorted<T>(s: Seq<T>) -> Seq<T>;
pub trait VVecOps<T> { fn v_insert_at(&mut self, i: usize, x: T); fn v_remove_at(&mut self, i: usize) -> T; fn v_truncate(&mut self, n: usize); fn v_reverse(&mut self); fn v_dedup(&mut self); fn v_sort(&mut self); fn v_split_first<'a>(&'a self) -> Option<(&'a T, &'a [T])>; fn v_split_last<'a>(&'a self) -> Option<(&'a T, &'a [T])>; }
impl<T> VVecOps<T> for Vec<T> {
    #[verifier::external_body] fn v_insert_at(&mut self, i: usize, x: T) ensures i <= old(self)@.len() ==> final(self)@ == old(self)@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body] fn v_remove_at(&mut self, i: usize) -> (r: T) ensures i < old(self)@.len() ==> final(self)@ == old(self)@.remove(i as int) && r == old(self)@[i as int] { unimplemented!() }
    #[verifier::external_body] fn v_truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn v_reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
    #[verifier::external_body] fn v_dedup(&mut self) ensures final(self)@ == s_dedup(old(self)@) { unimplemented!() }
    #[verifier::external_body] fn v_sort(&mut self) ensures final(self)@ == s_sorted(old(self)@) { unimplemented!() }
    #[verifier::external_body] fn v_split_first<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) ensures match r { Some((a, b)) => self@.len() > 0 && *a == self@[0] && b@ == self@.subrange(1, self@.len() as int), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body] fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) ensures match r { Some((a, b)) => self@.len() > 0 && *a == self@.last() && b@ == self@.drop_last(), None => self@.len() == 0 } { unimplemented!() }
}
pub trait VToVec<T> { spec fn items(&self) -> Seq<T>; fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.items(); }
impl<T: VClone> VToVec<T> for [T] { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: VClone> VToVec<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VBytesOps { spec fn bv(&self) -> Seq<u8>;
    fn v_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == is_prefix8(p@, self.bv());
    fn v_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>) ensures match r { Some(t) => is_prefix8(p@, self.bv()) && t@ == self.bv().subrange(p@.len() as int, self.bv().len() as int) && self.bv() == p@ + t@, None => !is_prefix8(p@, self.bv()) }; }
impl VBytesOps for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>) { unimplemented!() } }
impl VBytesOps for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>) { unimplemented!() } }
pub trait VAsBytes { spec fn ab(&self) -> Seq<u8>; fn v_as_ref(&self) -> (r: &[u8]) ensures r@ == self.ab(); }
impl VAsBytes for Vec<u8> { open spec fn ab(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VAsBytes for [u8] { open spec fn ab(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'a, T: VAsBytes + ?Sized> VAsBytes for &'a T { open spec fn ab(&self) -> Seq<u8> { (**self).ab() } fn v_as_ref(&self) -> (r: &[u8]) { (**self).v_as_ref() } }
impl<const N: usize> VAsBytes for [u8; N] { open spec fn ab(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VAsBytes for str { open spec fn ab(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VAsBytes for String { open spec fn ab(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub open spec fn cat8(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else { cat8(s.drop_last()) + s.last() } }
pub broadcast proof fn lem_cat8_2(s: Seq<Seq<u8>>) requires s.len() == 2 ensures #[trigger] cat8(s) == s[0] + s[1] { reveal_with_fuel(cat8, 3); assert(cat8(s) =~= s[0] + s[1]); }
pub broadcast proof fn lem_cat8_3(s: Seq<Seq<u8>>) requires s.len() == 3 ensures #[trigger] cat8(s) == s[0] + s[1] + s[2] { reveal_with_fuel(cat8, 4); assert(cat8(s) =~= s[0] + s[1] + s[2]); }
pub broadcast proof fn lem_catc_2(s: Seq<Seq<char>>) requires s.len() == 2 ensures #[trigger] catc(s) == s[0] + s[1] { reveal_with_fuel(catc, 3); assert(catc(s) =~= s[0] + s[1]); }
pub broadcast proof fn lem_catc_3(s: Seq<Seq<char>>) requires s.len() == 3 ensures #[trigger] catc(s) == s[0] + s[1] + s[2] { reveal_with_fuel(catc, 4); assert(catc(s) =~= s[0] + s[1] + s[2]); }
/// slices and texts put one after another
pub trait VConcat<R> { spec fn s_cat(&self, r: R) -> bool; fn v_concat(&self) -> (r: R) ensures self.s_cat(r); }
impl<'a, const N: usize> VConcat<Vec<u8>> for [&'a [u8]; N] { open spec fn s_cat(&self, r: Vec<u8>) -> bool { r@ == cat8(self@.map(|i: int, x: &'a [u8]| x@)) } #[verifier::external_body] fn v_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a, const N: usize> VConcat<String> for [&'a str; N] { open spec fn s_cat(&self, r: String) -> bool { r@ == catc(views(self@)) } #[verifier::external_body] fn v_concat(&self) -> (r: String) { unimplemented!() } }
impl<'a> VConcat<Vec<u8>> for Vec<&'a [u8]> { open spec fn s_cat(&self, r: Vec<u8>) -> bool { r@ == cat8(self@.map(|i: int, x: &'a [u8]| x@)) } #[verifier::external_body] fn v_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a> VConcat<String> for Vec<&'a str> { open spec fn s_cat(&self, r: String) -> bool { r@ == catc(views(self@)) } #[verifier::external_body] fn v_concat(&self) -> (r: String) { unimplemented!() } }
pub open spec fn catc(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::<char>::empty() } else { catc(s.drop_last()) + s.last() } }

// ---------- iterators ----------
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VIter<T> { v: Vec<T>, p: usize }
impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: VIter<T>) ensures r.seq() == v@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn v_next(&mut self) -> (r: Option<T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), 0 <= final(self).pos() <= final(self).seq().len(),
            match r { Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                      None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() } { unimplemented!() }
    #[verifier::external_body] pub fn v_take(self, n: usize) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().subrange(0, n as int) } else { self.seq() }) { unimplemented!() }
    #[verifier::external_body] pub fn v_skip(self, n: usize) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().subrange(n as int, self.seq().len() as int) } else { Seq::<T>::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn v_rev(self) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
    #[verifier::external_body] pub fn v_enumerate(self) -> (r: VIter<(usize, T)>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == enumd(self.seq()), r.seq().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn v_collect_vec(self) -> (r: Vec<T>) requires 0 <= self.pos() <= self.seq().len() ensures r@ == self.seq().subrange(self.pos(), self.seq().len() as int) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body] pub fn v_zip<I: VIntoIter>(self, o: I) -> (r: VIter<(T, I::Item)>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == zipd(self.seq(), o.s_items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_chain<I: VIntoIter<Item = T>>(self, o: I) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq() + o.s_items() { unimplemented!() }
    #[verifier::external_body] pub fn v_last(self) -> (r: Option<T>) requires 0 <= self.pos() <= self.seq().len() ensures match r { Some(x) => self.pos() < self.seq().len() && x == self.seq().last(), None => self.pos() == self.seq().len() } { unimplemented!() }
    #[verifier::external_body] pub fn v_nth(&mut self, n: usize) -> (r: Option<T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), match r { Some(x) => old(self).pos() + n < old(self).seq().len() && x == old(self).seq()[old(self).pos() + n] && final(self).pos() == old(self).pos() + n + 1, None => old(self).pos() + n >= old(self).seq().len() && final(self).pos() == old(self).seq().len() } { unimplemented!() }
}
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lem_derefs<'a, T>(s: Seq<T>) ensures #[trigger] derefs(refs::<T>(s)) == s { assert(derefs(refs::<T>(s)) =~= s); }
impl<'a, T: VClone> VIter<&'a T> {
    #[verifier::external_body] pub fn v_cloned(self) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == derefs(self.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn v_copied(self) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == derefs(self.seq()) { unimplemented!() }
}
pub open spec fn zipd<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
/// the numbers from lo up to, not including, hi
#[verifier::external_body] pub fn v_range(lo: usize, hi: usize) -> (r: VIter<usize>) ensures r.pos() == 0, r.seq() == range_seq(lo as int, hi as int) { unimplemented!() }
pub open spec fn range_seq(lo: int, hi: int) -> Seq<usize> { Seq::new(if lo < hi { (hi - lo) as nat } else { 0 }, |i: int| (lo + i) as usize) }
pub broadcast proof fn lem_range_set(lo: int, hi: int, k: int) requires 0 <= lo, hi <= usize::MAX ensures #[trigger] keyset(range_seq(lo, hi)).contains(k) <==> lo <= k < hi {
    let t = range_seq(lo, hi).map(|i: int, k: usize| k.kv());
    if lo <= k < hi { assert(t[k - lo] == k); }
}
pub trait VCollectText { spec fn s_text(self) -> Seq<char>; }
impl VCollectText for VIter<char> { open spec fn s_text(self) -> Seq<char> { self.seq() } }
impl VCollectText for VIter<String> { open spec fn s_text(self) -> Seq<char> { catc(self.seq().map(|i: int, x: String| x@)) } }
impl<'a> VCollectText for VIter<&'a str> { open spec fn s_text(self) -> Seq<char> { catc(views(self.seq())) } }
#[verifier::external_body] pub fn v_collect_string<I: VCollectText>(it: I) -> (r: String) ensures r@ == it.s_text() { unimplemented!() }
#[verifier::external_body] pub fn v_once<T>(x: T) -> (r: VIter<T>) ensures r.pos() == 0, r.seq() == seq![x] { unimplemented!() }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::<T>::empty() } }
#[verifier::external_body] pub fn v_opt_iter<'a, T>(o: &'a Option<T>) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == (match *o { Some(x) => seq![&x], None => Seq::<&'a T>::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn v_opt_list<'a, T>(o: &'a Option<Vec<T>>) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == (match *o { Some(v) => refs(v@), None => Seq::<&'a T>::empty() }) { unimplemented!() }
impl<T> VIntoIter for Option<T> { type Item = T; open spec fn s_items(self) -> Seq<T> { opt_seq(self) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T, const N: usize> VIntoIter for [T; N] { type Item = T; open spec fn s_items(self) -> Seq<T> { self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T, const N: usize> VIntoIter for &'a [T; N] { type Item = &'a T; open spec fn s_items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
pub open spec fn enumd<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub trait VIntoIter { type Item; spec fn s_items(self) -> Seq<Self::Item>; fn v_into_iter(self) -> (r: VIter<Self::Item>) ensures r.pos() == 0, r.seq() == self.s_items(); }
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn s_items(self) -> Seq<T> { self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn s_items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a [T] { type Item = &'a T; open spec fn s_items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, K: VKey, V> VIntoIter for &'a VMap<K, V> { type Item = (&'a K, &'a V); open spec fn s_items(self) -> Seq<(&'a K, &'a V)> { erefs(self.ents()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() } }
impl<K: VKey> VIntoIter for VSet<K> { type Item = K; open spec fn s_items(self) -> Seq<K> { self.ord() } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<K>) { unimplemented!() } }
impl<'a, K: VKey> VIntoIter for &'a VSet<K> { type Item = &'a K; open spec fn s_items(self) -> Seq<&'a K> { refs(self.ord()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a K>) { unimplemented!() } }
impl<T> VIntoIter for VIter<T> { type Item = T; open spec fn s_items(self) -> Seq<T> { if self.pos() == 0 { self.seq() } else { self.seq().subrange(self.pos(), self.seq().len() as int) } } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
/// Vec::extend_from_slice, of elements whose clone is the value itself
pub trait VExtendSlice<T> { fn v_extend_from_slice(&mut self, o: &[T]); }
impl<T: VClone> VExtendSlice<T> for Vec<T> { #[verifier::external_body] fn v_extend_from_slice(&mut self, o: &[T]) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
pub trait VExtend<T>: Sized { spec fn s_ext(old_: Self, s: Seq<T>, new: Self) -> bool; fn v_extend(&mut self, it: VIter<T>) requires it.pos() == 0 ensures Self::s_ext(*old(self), it.seq(), *final(self)); }
pub trait VAppend<T> { fn v_append(&mut self, o: &mut Vec<T>); }
impl<T> VAppend<T> for Vec<T> { fn v_append(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@ { self.append(o) } }
impl<T> VExtend<T> for Vec<T> { open spec fn s_ext(o: Vec<T>, s: Seq<T>, n: Vec<T>) -> bool { n@ == o@ + s } #[verifier::external_body] fn v_extend(&mut self, it: VIter<T>) { unimplemented!() } }
impl<K: VKey> VExtend<K> for VSet<K> { open spec fn s_ext(o: VSet<K>, s: Seq<K>, n: VSet<K>) -> bool { n@ == o@.union(keyset(s)) } #[verifier::external_body] fn v_extend(&mut self, it: VIter<K>) { unimplemented!() } }
pub open spec fn keyset<K: VKey>(s: Seq<K>) -> Set<K::KV> { s.map(|i: int, k: K| k.kv()).to_set() }
pub broadcast proof fn lem_keyset1<K: VKey>(s: Seq<K>) requires s.len() == 1 ensures #[trigger] keyset(s) == Set::<K::KV>::empty().insert(s[0].kv()) { let t = s.map(|i: int, k: K| k.kv()); assert(t[0] == s[0].kv()); assert forall|o: K::KV| keyset(s).contains(o) <==> o == s[0].kv() by { if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; assert(i == 0); } } assert(keyset(s) =~= Set::<K::KV>::empty().insert(s[0].kv())); }

// ---------- maps and sets (BTreeMap, HashMap, serde_json::Map, BTreeSet) ----------
pub trait VKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for [u8] { type KV = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VKey for Vec<u8> { type KV = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VKey for usize { type KV = int; open spec fn kv(&self) -> int { *self as int } }
impl<'a, T: VKey + ?Sized> VKey for &'a T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VMap<K: VKey, V> { k: std::marker::PhantomData<K>, v: Vec<V> }
pub open spec fn erefs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<K: VKey, V> VMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, V>;
    /// the entries in iteration order
    pub uninterp spec fn ents(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn new() -> (r: VMap<K, V>) ensures r@ == Map::<K::KV, V>::empty(), r.ents().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn v_get<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(q.kv()) && *v == self@[q.kv()], None => !self@.contains_key(q.kv()) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains_key(q.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body] pub fn v_remove<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(q.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(q.kv()) && *v == old(self)@[q.kv()] && final(self)@ == old(self)@.insert(q.kv(), *final(v)),
            None => !old(self)@.contains_key(q.kv()) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures r.pos() == 0, r.seq() == erefs(self.ents()) { unimplemented!() }
    #[verifier::external_body] pub fn v_values<'a>(&'a self) -> (r: VIter<&'a V>) ensures r.pos() == 0, r.seq() == Seq::new(self.ents().len(), |i: int| &self.ents()[i].1) { unimplemented!() }
    #[verifier::external_body] pub fn v_keys<'a>(&'a self) -> (r: VIter<&'a K>) ensures r.pos() == 0, r.seq() == Seq::new(self.ents().len(), |i: int| &self.ents()[i].0) { unimplemented!() }
}
impl<K: VKey, V> VMap<K, V> {
    #[verifier::external_body] pub fn v_entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k.kv()) { old(self)@[k.kv()] } else { d }), final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
}
impl<K: VKey, V: VDefault> VMap<K, V> {
    #[verifier::external_body] pub fn v_entry_or_default(&mut self, k: K) -> (r: &mut V)
        ensures if old(self)@.contains_key(k.kv()) { *r == old(self)@[k.kv()] } else { V::s_default(*r) }, final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
}
/// the map a sequence of pairs builds: the last value of a key wins
pub open spec fn map_of<K: VKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.kv(), s.last().1) } }
impl<K: VKey, V> VMap<K, V> {
    #[verifier::external_body] pub fn v_from_iter<I: VIntoIter<Item = (K, V)>>(it: I) -> (r: VMap<K, V>) ensures r@ == map_of(it.s_items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_from<I: VIntoIter<Item = (K, V)>>(it: I) -> (r: VMap<K, V>) ensures r@ == map_of(it.s_items()) { unimplemented!() }
}
impl<K: VKey, V> VExtend<(K, V)> for VMap<K, V> { open spec fn s_ext(o: VMap<K, V>, s: Seq<(K, V)>, n: VMap<K, V>) -> bool { n@ == o@.union_prefer_right(map_of(s)) } #[verifier::external_body] fn v_extend(&mut self, it: VIter<(K, V)>) { unimplemented!() } }
/// the entries are exactly the map, each key once
pub open spec fn ents_ok<K: VKey, V>(m: &VMap<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < m.ents().len() ==> m@.contains_key((#[trigger] m.ents()[i]).0.kv()) && m@[m.ents()[i].0.kv()] == m.ents()[i].1
    &&& forall|i: int, j: int| 0 <= i < j < m.ents().len() ==> (#[trigger] m.ents()[i]).0.kv() != (#[trigger] m.ents()[j]).0.kv()
    &&& forall|k: K::KV| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < m.ents().len() && (#[trigger] m.ents()[i]).0.kv() == k
}
#[verifier::external_body] pub broadcast proof fn axiom_ents<K: VKey, V>(m: &VMap<K, V>) ensures #![trigger m.ents()] ents_ok(m) { }
/// each key occurs once among the entries
pub proof fn lem_ents_len<K: VKey, V>(m: &VMap<K, V>) ensures m@.dom().finite(), m@.dom().len() == m.ents().len() {
    axiom_ents(m); let t = m.ents().map(|i: int, e: (K, V)| e.0.kv());
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(m.ents()[i].0.kv() != m.ents()[j].0.kv()); } else { assert(m.ents()[j].0.kv() != m.ents()[i].0.kv()); } } }
    t.unique_seq_to_set();
    assert(t.to_set() =~= m@.dom()) by {
        assert forall|k: K::KV| t.to_set().contains(k) <==> m@.dom().contains(k) by {
            if t.to_set().contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(m@.contains_key(m.ents()[i].0.kv())); }
            if m@.dom().contains(k) { assert(m@.contains_key(k)); let i = choose|i: int| 0 <= i < m.ents().len() && (#[trigger] m.ents()[i]).0.kv() == k; assert(t[i] == k); }
        }
    }
}
/// a map whose keys are all keys of another is not longer
pub proof fn lem_submap_len<K: VKey, V>(a: &VMap<K, V>, b: &VMap<K, V>) requires forall|k: K::KV| #[trigger] a@.contains_key(k) ==> b@.contains_key(k) ensures a.ents().len() <= b.ents().len() {
    lem_ents_len(a); lem_ents_len(b);
    assert(a@.dom().subset_of(b@.dom())) by { assert forall|k: K::KV| a@.dom().contains(k) implies b@.dom().contains(k) by { assert(a@.contains_key(k)); } }
    vstd::set_lib::lemma_len_subset(a@.dom(), b@.dom());
}
#[verifier::external_body] pub broadcast proof fn axiom_map_ext<K: VKey, V>(a: VMap<K, V>, b: VMap<K, V>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VSet<K: VKey> { k: std::marker::PhantomData<K> }
impl<K: VKey> VSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::KV>;
    pub uninterp spec fn ord(&self) -> Seq<K>;
    #[verifier::external_body] pub fn new() -> (r: VSet<K>) ensures r@ == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn v_remove<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(q.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn v_contains<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q.kv()) { unimplemented!() }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<&'a K>) ensures r.pos() == 0, r.seq() == refs(self.ord()) { unimplemented!() }
    #[verifier::external_body] pub fn v_from_iter<I: VIntoIter<Item = K>>(it: I) -> (r: VSet<K>) ensures r@ == keyset(it.s_items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_from<I: VIntoIter<Item = K>>(it: I) -> (r: VSet<K>) ensures r@ == keyset(it.s_items()) { unimplemented!() }
    #[verifier::external_body] pub fn v_is_subset(&self, o: &VSet<K>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body] pub fn v_is_superset(&self, o: &VSet<K>) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
}
#[verifier::external_body] pub broadcast proof fn axiom_ord<K: VKey>(m: &VSet<K>) ensures #![trigger m.ord()]
    m@ =~= keyset(m.ord()), forall|i: int| 0 <= i < m.ord().len() ==> m@.contains((#[trigger] m.ord()[i]).kv()),
    forall|k: K::KV| #[trigger] m@.contains(k) ==> exists|i: int| 0 <= i < m.ord().len() && (#[trigger] m.ord()[i]).kv() == k,
    forall|i: int, j: int| 0 <= i < j < m.ord().len() ==> (#[trigger] m.ord()[i]).kv() != (#[trigger] m.ord()[j]).kv() { }
#[verifier::external_body] pub broadcast proof fn axiom_set_ext<K: VKey>(a: VSet<K>, b: VSet<K>) requires #[trigger] a@ == #[trigger] b@ ensures a == b { }

pub broadcast group g_axioms { lem_derefs, lem_join_2, lem_join_3, lem_keyset1, lem_range_set, axiom_lossy, axiom_vecstr_ext, lem_cat8_2, lem_cat8_3, lem_catc_2, lem_catc_3, axiom_string_ext, axiom_mk_str, axiom_vecu8_ext, axiom_utf8, axiom_utf8_text, axiom_utf8_cat, axiom_dec, axiom_ents, axiom_map_ext, axiom_ord, axiom_set_ext, axiom_utf8_len, axiom_utf8_ascii, lem_prefix_on_char, lem_prefix_slice, lem_take_drop, lem_take_all }
