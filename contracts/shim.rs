// Contract shims: the parts of the dependencies and of std which Verus does
// not know. Everything marked external_body (or uninterp/axiom) here is an
// ASSUMED contract; the list is scanned into the evidence on every run.
pub mod vx {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::ops::{AddSpec, SubSpec, MulSpec, DivSpec};
use vstd::std_specs::cmp::PartialOrdSpec;
use crate::binary::errors::ParseError;
/// Reachability check (thorough tier): no contract mentions it.
pub uninterp spec fn vx_canary(i: int) -> bool;

// ---------------------------------------------------------------- views ----
/// Spec-level value of an executable value (slices, strings and vectors
/// become sequences).
pub trait Vw { type W; spec fn vw(&self) -> Self::W; }
impl Vw for u8 { type W = u8; open spec fn vw(&self) -> u8 { *self } }
impl Vw for u16 { type W = u16; open spec fn vw(&self) -> u16 { *self } }
impl Vw for u32 { type W = u32; open spec fn vw(&self) -> u32 { *self } }
impl Vw for u64 { type W = u64; open spec fn vw(&self) -> u64 { *self } }
impl Vw for u128 { type W = u128; open spec fn vw(&self) -> u128 { *self } }
impl Vw for usize { type W = usize; open spec fn vw(&self) -> usize { *self } }
impl Vw for i8 { type W = i8; open spec fn vw(&self) -> i8 { *self } }
impl Vw for i16 { type W = i16; open spec fn vw(&self) -> i16 { *self } }
impl Vw for i32 { type W = i32; open spec fn vw(&self) -> i32 { *self } }
impl Vw for i64 { type W = i64; open spec fn vw(&self) -> i64 { *self } }
impl Vw for f32 { type W = f32; open spec fn vw(&self) -> f32 { *self } }
impl Vw for f64 { type W = f64; open spec fn vw(&self) -> f64 { *self } }
impl Vw for bool { type W = bool; open spec fn vw(&self) -> bool { *self } }
impl<T: Vw> Vw for Vec<T> { type W = Seq<T::W>; open spec fn vw(&self) -> Seq<T::W> { vws(self@) } }
impl<T: Vw> Vw for Option<T> { type W = Option<T::W>; open spec fn vw(&self) -> Option<T::W> { match *self { Some(t) => Some(t.vw()), None => None } } }
impl<'a, T: Vw> Vw for &'a [T] { type W = Seq<T::W>; open spec fn vw(&self) -> Seq<T::W> { vws(self@) } }
impl<T: Vw, const N: usize> Vw for [T; N] { type W = Seq<T::W>; open spec fn vw(&self) -> Seq<T::W> { vws(self@) } }
impl<'a> Vw for &'a str { type W = Seq<char>; open spec fn vw(&self) -> Seq<char> { self@ } }
impl Vw for String { type W = Seq<char>; open spec fn vw(&self) -> Seq<char> { self@ } }
impl<A: Vw, B: Vw> Vw for (A, B) { type W = (A::W, B::W); open spec fn vw(&self) -> (A::W, B::W) { (self.0.vw(), self.1.vw()) } }
impl<A: Vw> Vw for Result<A, u16> { type W = Result<A::W, u16>; open spec fn vw(&self) -> Result<A::W, u16> { match *self { Ok(a) => Ok(a.vw()), Err(e) => Err(e) } } }
impl<'a, O: Vw, E> Vw for Result<(&'a [u8], O), nom::Err<E>> { type W = Option<(O::W, Seq<u8>)>;
    open spec fn vw(&self) -> Option<(O::W, Seq<u8>)> { match *self { Ok((rest, o)) => Some((o.vw(), rest@)), Err(e) => None } } }
/// Start, end and whether the range is used up.
impl<Idx: Vw> Vw for core::ops::RangeInclusive<Idx> { type W = (Idx, Idx, bool);
    open spec fn vw(&self) -> (Idx, Idx, bool) { (self@.start, self@.end, self@.exhausted) } }
impl<'a, T: Vw> Vw for &'a T { type W = T::W; open spec fn vw(&self) -> T::W { (**self).vw() } }

pub open spec fn vws<T: Vw>(s: Seq<T>) -> Seq<T::W> { s.map_values(|t: T| t.vw()) }
pub broadcast proof fn vws_len<T: Vw>(s: Seq<T>) ensures #[trigger] vws(s).len() == s.len() {}
pub broadcast proof fn vws_index<T: Vw>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures #[trigger] vws(s)[i] == s[i].vw() {}
pub broadcast proof fn vws_push<T: Vw>(s: Seq<T>, x: T) ensures #[trigger] vws(s.push(x)) == vws(s).push(x.vw()) { assert(vws(s.push(x)) =~= vws(s).push(x.vw())); }
pub broadcast proof fn vws_empty<T: Vw>() ensures #[trigger] vws(Seq::<T>::empty()) == Seq::<T::W>::empty() { assert(vws(Seq::<T>::empty()) =~= Seq::<T::W>::empty()); }
pub broadcast proof fn arr3_u8(a: [u8; 3]) ensures #[trigger] vws(a@) == seq![a@[0], a@[1], a@[2]] { assert(vws(a@) =~= seq![a@[0], a@[1], a@[2]]); }
pub broadcast proof fn vws_u8(s: Seq<u8>) ensures #[trigger] vws(s) == s { assert(vws(s) =~= s); }

// ------------------------------------------------------ byte sequences ----
pub open spec fn sk(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(n, s.len() as int) }
pub open spec fn sbs(s: Seq<u8>, a: int, b: int) -> Seq<u8> { s.subrange(a, b) }
#[verifier::opaque] pub open spec fn u16_at(s: Seq<u8>, o: int) -> u16 { (s[o] as nat + 256 * (s[o + 1] as nat)) as u16 }
#[verifier::opaque] pub open spec fn u32_at(s: Seq<u8>, o: int) -> u32 { (u16_at(s, o) as nat + 0x10000 * (u16_at(s, o + 2) as nat)) as u32 }
#[verifier::opaque] pub open spec fn u64_at(s: Seq<u8>, o: int) -> u64 { (u32_at(s, o) as nat + 0x1_0000_0000 * (u32_at(s, o + 4) as nat)) as u64 }
#[verifier::opaque] pub open spec fn u128_at(s: Seq<u8>, o: int) -> u128 { (u64_at(s, o) as nat + 0x1_0000_0000_0000_0000 * (u64_at(s, o + 8) as nat)) as u128 }
pub open spec fn i8_of(v: u8) -> i8 { (if v < 0x80 { v as int } else { v - 0x100 }) as i8 }
pub open spec fn i16_of(v: u16) -> i16 { (if v < 0x8000 { v as int } else { v - 0x1_0000 }) as i16 }
pub open spec fn i32_of(v: u32) -> i32 { (if v < 0x8000_0000 { v as int } else { v - 0x1_0000_0000 }) as i32 }
pub open spec fn i64_of(v: u64) -> i64 { (if v < 0x8000_0000_0000_0000 { v as int } else { v - 0x1_0000_0000_0000_0000 }) as i64 }
#[verifier::opaque] pub open spec fn i16_at(s: Seq<u8>, o: int) -> i16 { i16_of(u16_at(s, o)) }
#[verifier::opaque] pub open spec fn i32_at(s: Seq<u8>, o: int) -> i32 { i32_of(u32_at(s, o)) }
#[verifier::opaque] pub open spec fn i64_at(s: Seq<u8>, o: int) -> i64 { i64_of(u64_at(s, o)) }
pub uninterp spec fn f32_of_bits(b: u32) -> f32;
pub uninterp spec fn f64_of_bits(b: u64) -> f64;
pub uninterp spec fn utf8_valid(s: Seq<u8>) -> bool;
pub uninterp spec fn utf8_str(s: Seq<u8>) -> Seq<char>;

pub broadcast proof fn sk_sk(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] sk(sk(s, a), b) == sk(s, a + b)
{ assert(sk(sk(s, a), b) =~= sk(s, a + b)); }
pub broadcast proof fn sk_zero(s: Seq<u8>) ensures #[trigger] sk(s, 0) == s { assert(sk(s, 0) =~= s); }
pub broadcast proof fn sk_len(s: Seq<u8>, a: int) requires 0 <= a <= s.len() ensures #[trigger] sk(s, a).len() == s.len() - a {}
pub broadcast proof fn sub_sk(s: Seq<u8>, a: int, x: int, y: int)
    requires 0 <= a, 0 <= x <= y, a + y <= s.len()
    ensures #[trigger] sbs(sk(s, a), x, y) == sbs(s, a + x, a + y)
{ assert(sbs(sk(s, a), x, y) =~= sbs(s, a + x, a + y)); }
pub broadcast proof fn sub_len(s: Seq<u8>, x: int, y: int) requires 0 <= x <= y <= s.len() ensures #[trigger] sbs(s, x, y).len() == y - x {}
pub broadcast proof fn u16_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 2 <= s.len()
    ensures #[trigger] u16_at(sk(s, a), o) == u16_at(s, a + o) { reveal(u16_at); }
pub broadcast proof fn u32_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 4 <= s.len()
    ensures #[trigger] u32_at(sk(s, a), o) == u32_at(s, a + o) { reveal(u32_at); u16_sk(s, a, o); u16_sk(s, a, o + 2); }
pub broadcast proof fn u64_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 8 <= s.len()
    ensures #[trigger] u64_at(sk(s, a), o) == u64_at(s, a + o) { reveal(u64_at); u32_sk(s, a, o); u32_sk(s, a, o + 4); }
pub broadcast proof fn u128_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 16 <= s.len()
    ensures #[trigger] u128_at(sk(s, a), o) == u128_at(s, a + o) { reveal(u128_at); u64_sk(s, a, o); u64_sk(s, a, o + 8); }
pub broadcast proof fn i16_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 2 <= s.len()
    ensures #[trigger] i16_at(sk(s, a), o) == i16_at(s, a + o) { reveal(i16_at); u16_sk(s, a, o); }
pub broadcast proof fn i32_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 4 <= s.len()
    ensures #[trigger] i32_at(sk(s, a), o) == i32_at(s, a + o) { reveal(i32_at); u32_sk(s, a, o); }
pub broadcast proof fn i64_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o + 8 <= s.len()
    ensures #[trigger] i64_at(sk(s, a), o) == i64_at(s, a + o) { reveal(i64_at); u64_sk(s, a, o); }
pub broadcast proof fn sk_sbs(s: Seq<u8>, a: int, b: int, n: int) requires 0 <= a <= b <= s.len(), 0 <= n <= b - a
    ensures #[trigger] sk(sbs(s, a, b), n) == sbs(s, a + n, b) { assert(sk(sbs(s, a, b), n) =~= sbs(s, a + n, b)); }
pub broadcast proof fn sbs_sbs(s: Seq<u8>, a: int, b: int, x: int, y: int) requires 0 <= a <= b <= s.len(), 0 <= x <= y <= b - a
    ensures #[trigger] sbs(sbs(s, a, b), x, y) == sbs(s, a + x, a + y) { assert(sbs(sbs(s, a, b), x, y) =~= sbs(s, a + x, a + y)); }
pub broadcast proof fn sbs_full(s: Seq<u8>, n: int) requires n == s.len() ensures #[trigger] sbs(s, 0, n) == s { assert(sbs(s, 0, n) =~= s); }
pub broadcast proof fn u16_sbs(s: Seq<u8>, a: int, b: int, o: int) requires 0 <= a <= b <= s.len(), 0 <= o, o + 2 <= b - a
    ensures #[trigger] u16_at(sbs(s, a, b), o) == u16_at(s, a + o) { reveal(u16_at); }
pub broadcast proof fn u32_sbs(s: Seq<u8>, a: int, b: int, o: int) requires 0 <= a <= b <= s.len(), 0 <= o, o + 4 <= b - a
    ensures #[trigger] u32_at(sbs(s, a, b), o) == u32_at(s, a + o) { reveal(u32_at); u16_sbs(s, a, b, o); u16_sbs(s, a, b, o + 2); }
pub broadcast proof fn i16_sbs(s: Seq<u8>, a: int, b: int, o: int) requires 0 <= a <= b <= s.len(), 0 <= o, o + 2 <= b - a
    ensures #[trigger] i16_at(sbs(s, a, b), o) == i16_at(s, a + o) { reveal(i16_at); u16_sbs(s, a, b, o); }
pub broadcast proof fn i32_sbs(s: Seq<u8>, a: int, b: int, o: int) requires 0 <= a <= b <= s.len(), 0 <= o, o + 4 <= b - a
    ensures #[trigger] i32_at(sbs(s, a, b), o) == i32_at(s, a + o) { reveal(i32_at); u32_sbs(s, a, b, o); }
pub broadcast proof fn byte_sbs(s: Seq<u8>, a: int, b: int, o: int) requires 0 <= a <= b <= s.len(), 0 <= o < b - a
    ensures #[trigger] sbs(s, a, b)[o] == s[a + o] {}
pub broadcast proof fn byte_sk(s: Seq<u8>, a: int, o: int) requires 0 <= a, 0 <= o, a + o < s.len()
    ensures #[trigger] sk(s, a)[o] == s[a + o] {}
pub broadcast group bytes { arr3_u8,
    sk_sk, sk_zero, sk_len, sub_sk, sub_len, u16_sk, u32_sk, u64_sk, u128_sk, i16_sk, i32_sk, i64_sk, byte_sk, sk_sbs, sbs_sbs, sbs_full, u16_sbs, u32_sbs, i16_sbs, i32_sbs, byte_sbs, vws_len, vws_index, vws_push, vws_empty, vws_u8,
}

// ------------------------------------------------------------- parsers ----
/// Functional specification of a parser: the value and the remaining input,
/// or None if the input is rejected.
pub type Pv<W> = Option<(W, Seq<u8>)>;
pub type Sp<W> = spec_fn(Seq<u8>) -> Option<(W, Seq<u8>)>;
pub type PR<'a, O> = Result<(&'a [u8], O), nom::Err<ParseError<'a>>>;

/// `r` is the outcome `o` describes.
pub open spec fn pmatch<'a, O: Vw>(o: Option<(O::W, Seq<u8>)>, r: PR<'a, O>) -> bool {
    match r { Ok((rest, v)) => o == Some((v.vw(), rest@)), Err(e) => o is None && !(e is Incomplete) }
}
pub open spec fn refines<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>>(f: F, p: Sp<O::W>) -> bool {
    &&& forall |i: &'a [u8]| #[trigger] call_requires(f, (i,))
    &&& forall |i: &'a [u8], r: PR<'a, O>| #[trigger] call_ensures(f, (i,), r) ==> pmatch(p(i@), r)
}
/// A function used as parser together with its specification.
#[verifier::reject_recursive_types(O)]
pub struct Fp<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>> { pub f: F, pub p: Ghost<Sp<O::W>>, pub ph: core::marker::PhantomData<&'a O> }
pub fn vx_p<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>>(f: F, Ghost(p): Ghost<Sp<O::W>>) -> (r: Fp<'a, O, F>)
    requires refines::<O, F>(f, p)
    ensures r.f == f, r.p@ == p
{ Fp { f, p: Ghost(p), ph: core::marker::PhantomData } }
impl<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>> Parser<'a> for Fp<'a, O, F> {
    type Out = O;
    open spec fn wf(&self) -> bool { refines::<O, F>(self.f, self.p@) }
    open spec fn sp(&self) -> Sp<O::W> { self.p@ }
    fn parse(&self, i: &'a [u8]) -> (r: PR<'a, O>) { (self.f)(i) }
}
/// Any parser with an equivalent specification.
pub struct Qp<P, W> { pub f: P, pub p: Ghost<Sp<W>> }
pub fn vx_q<'a, P: Parser<'a>>(f: P, Ghost(p): Ghost<Sp<<P::Out as Vw>::W>>) -> (r: Qp<P, <P::Out as Vw>::W>)
    requires f.wf(), forall |i: Seq<u8>| #[trigger] f.sp()(i) == p(i)
    ensures r.f == f, r.p@ == p
{ Qp { f, p: Ghost(p) } }
impl<'a, P: Parser<'a>> Parser<'a> for Qp<P, <P::Out as Vw>::W> {
    type Out = P::Out;
    open spec fn wf(&self) -> bool { self.f.wf() && forall |i: Seq<u8>| #[trigger] self.f.sp()(i) == (self.p@)(i) }
    open spec fn sp(&self) -> Sp<<P::Out as Vw>::W> { self.p@ }
    fn parse(&self, i: &'a [u8]) -> (r: PR<'a, P::Out>) { self.f.parse(i) }
}
pub trait Parser<'a>: Sized {
    type Out: Vw;
    spec fn wf(&self) -> bool;
    spec fn sp(&self) -> Sp<<Self::Out as Vw>::W>;
    fn parse(&self, i: &'a [u8]) -> (r: PR<'a, Self::Out>)
        requires self.wf(),
        ensures pmatch(self.sp()(i@), r);
}
/// A function on parser outputs together with its specification.
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Gf<A: Vw, B: Vw, G: Fn(A) -> B> { pub g: G, pub s: Ghost<spec_fn(A::W) -> B::W>, pub ph: core::marker::PhantomData<(A, B)> }
pub open spec fn grefines<A: Vw, B: Vw, G: Fn(A) -> B>(g: G, s: spec_fn(A::W) -> B::W) -> bool {
    &&& forall |x: A| #[trigger] call_requires(g, (x,))
    &&& forall |x: A, y: B| #[trigger] call_ensures(g, (x,), y) ==> y.vw() == s(x.vw())
}
pub fn vx_g<A: Vw, B: Vw, G: Fn(A) -> B>(g: G, Ghost(s): Ghost<spec_fn(A::W) -> B::W>) -> (r: Gf<A, B, G>)
    requires grefines::<A, B, G>(g, s)
    ensures r.g == g, r.s@ == s
{ Gf { g, s: Ghost(s), ph: core::marker::PhantomData } }

#[verifier::external_body]
pub fn vx_nom_error<'a>(i: &'a [u8]) -> (r: nom::Err<ParseError<'a>>) ensures r is Error { unimplemented!() }

pub open spec fn p_take(n: nat, i: Seq<u8>) -> Pv<Seq<u8>> { if i.len() < n { None } else { Some((sbs(i, 0, n as int), sk(i, n as int))) } }
pub open spec fn p_count<W>(p: Sp<W>, n: nat, i: Seq<u8>) -> Pv<Seq<W>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), i)) } else {
        match p_count(p, (n - 1) as nat, i) {
            None => None,
            Some((vs, rest)) => match p(rest) { None => None, Some((v, rest2)) => Some((vs.push(v), rest2)) },
        }
    }
}
pub proof fn count_none<W>(p: Sp<W>, k: nat, n: nat, i: Seq<u8>)
    requires k <= n, p_count(p, k, i) is None
    ensures p_count(p, n, i) is None
    decreases n
{ if k < n { count_none(p, k, (n - 1) as nat, i); } }
/// One or more elements until the input is exhausted.
pub open spec fn p_all<W>(p: Sp<W>, i: Seq<u8>) -> Option<Seq<W>>
    decreases i.len()
{
    match p(i) {
        None => None,
        Some((v, rest)) => if rest.len() == 0 { Some(seq![v]) } else if rest.len() >= i.len() { None } else {
            match p_all(p, rest) { None => None, Some(vs) => Some(seq![v] + vs) }
        },
    }
}

pub struct TakeFn;
pub open spec fn le_fn<W>() -> bool { true }

pub mod nom {
    pub enum Needed { Unknown, Size(usize) }
    pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
    impl<E> Err<E> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    pub type IResult<I, O, E> = Result<(I, O), Err<E>>;
    pub use super::Parser;
    pub mod error {
        pub enum ErrorKind { Other }
        pub struct Error<I> { pub input: I, pub code: ErrorKind }
    }
    pub mod number { pub mod complete { pub use super::super::super::prim::*; } }
    pub mod bytes { pub mod complete { pub use super::super::super::comb::{take, tag}; } }
    pub mod combinator { pub use super::super::comb::{map, map_res, flat_map, cond, all_consuming, complete}; }
    pub mod multi { pub use super::super::comb::{count, many1}; }
}

pub mod prim {
    use vstd::prelude::*;
    use super::*;
    pub open spec fn p_u8(i: Seq<u8>) -> Pv<u8> { if i.len() < 1 { None } else { Some((i[0], sk(i, 1))) } }
    pub open spec fn p_u16(i: Seq<u8>) -> Pv<u16> { if i.len() < 2 { None } else { Some((u16_at(i, 0), sk(i, 2))) } }
    pub open spec fn p_u32(i: Seq<u8>) -> Pv<u32> { if i.len() < 4 { None } else { Some((u32_at(i, 0), sk(i, 4))) } }
    pub open spec fn p_u64(i: Seq<u8>) -> Pv<u64> { if i.len() < 8 { None } else { Some((u64_at(i, 0), sk(i, 8))) } }
    pub open spec fn p_u128(i: Seq<u8>) -> Pv<u128> { if i.len() < 16 { None } else { Some((u128_at(i, 0), sk(i, 16))) } }
    pub open spec fn p_i8(i: Seq<u8>) -> Pv<i8> { if i.len() < 1 { None } else { Some((i8_of(i[0]), sk(i, 1))) } }
    pub open spec fn p_i16(i: Seq<u8>) -> Pv<i16> { if i.len() < 2 { None } else { Some((i16_at(i, 0), sk(i, 2))) } }
    pub open spec fn p_i32(i: Seq<u8>) -> Pv<i32> { if i.len() < 4 { None } else { Some((i32_at(i, 0), sk(i, 4))) } }
    pub open spec fn p_i64(i: Seq<u8>) -> Pv<i64> { if i.len() < 8 { None } else { Some((i64_at(i, 0), sk(i, 8))) } }
    pub open spec fn p_f32(i: Seq<u8>) -> Pv<f32> { if i.len() < 4 { None } else { Some((f32_of_bits(u32_at(i, 0)), sk(i, 4))) } }
    pub open spec fn p_f64(i: Seq<u8>) -> Pv<f64> { if i.len() < 8 { None } else { Some((f64_of_bits(u64_at(i, 0)), sk(i, 8))) } }
    pub open spec fn sp_u8() -> Sp<u8> { |i: Seq<u8>| p_u8(i) }
    pub open spec fn sp_u16() -> Sp<u16> { |i: Seq<u8>| p_u16(i) }
    pub open spec fn sp_u32() -> Sp<u32> { |i: Seq<u8>| p_u32(i) }
    pub open spec fn sp_u64() -> Sp<u64> { |i: Seq<u8>| p_u64(i) }
    pub open spec fn sp_u128() -> Sp<u128> { |i: Seq<u8>| p_u128(i) }
    pub open spec fn sp_i8() -> Sp<i8> { |i: Seq<u8>| p_i8(i) }
    pub open spec fn sp_i16() -> Sp<i16> { |i: Seq<u8>| p_i16(i) }
    pub open spec fn sp_i32() -> Sp<i32> { |i: Seq<u8>| p_i32(i) }
    pub open spec fn sp_i64() -> Sp<i64> { |i: Seq<u8>| p_i64(i) }
    pub open spec fn sp_f32() -> Sp<f32> { |i: Seq<u8>| p_f32(i) }
    pub open spec fn sp_f64() -> Sp<f64> { |i: Seq<u8>| p_f64(i) }
    // On too short input nom's complete number parsers return Err::Error.
    pub open spec fn perr<'a, O>(i: &'a [u8], r: PR<'a, O>) -> bool { r is Err ==> r->Err_0 is Error }
    #[verifier::external_body] pub fn le_u8<'a>(i: &'a [u8]) -> (r: PR<'a, u8>) ensures pmatch(p_u8(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_u16<'a>(i: &'a [u8]) -> (r: PR<'a, u16>) ensures pmatch(p_u16(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_u32<'a>(i: &'a [u8]) -> (r: PR<'a, u32>) ensures pmatch(p_u32(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_u64<'a>(i: &'a [u8]) -> (r: PR<'a, u64>) ensures pmatch(p_u64(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_u128<'a>(i: &'a [u8]) -> (r: PR<'a, u128>) ensures pmatch(p_u128(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_i8<'a>(i: &'a [u8]) -> (r: PR<'a, i8>) ensures pmatch(p_i8(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_i16<'a>(i: &'a [u8]) -> (r: PR<'a, i16>) ensures pmatch(p_i16(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_i32<'a>(i: &'a [u8]) -> (r: PR<'a, i32>) ensures pmatch(p_i32(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_i64<'a>(i: &'a [u8]) -> (r: PR<'a, i64>) ensures pmatch(p_i64(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_f32<'a>(i: &'a [u8]) -> (r: PR<'a, f32>) ensures pmatch(p_f32(i@), r), perr(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn le_f64<'a>(i: &'a [u8]) -> (r: PR<'a, f64>) ensures pmatch(p_f64(i@), r), perr(i, r) { unimplemented!() }
}

pub mod comb {
    use vstd::prelude::*;
    use super::*;
    // -- take / tag
    pub trait ToUsize: Vw { spec fn tou(w: Self::W) -> nat; fn to_u(&self) -> (r: usize) ensures r == Self::tou(self.vw()); }
    impl ToUsize for usize { open spec fn tou(w: usize) -> nat { w as nat } fn to_u(&self) -> usize { *self } }
    impl ToUsize for u32 { open spec fn tou(w: u32) -> nat { w as nat } fn to_u(&self) -> usize { *self as usize } }
    impl ToUsize for u16 { open spec fn tou(w: u16) -> nat { w as nat } fn to_u(&self) -> usize { *self as usize } }
    impl ToUsize for u8 { open spec fn tou(w: u8) -> nat { w as nat } fn to_u(&self) -> usize { *self as usize } }
    pub struct Take { pub n: usize }
    pub fn take<C: ToUsize>(n: C) -> (r: Take) ensures r.n == C::tou(n.vw()) { Take { n: n.to_u() } }
    impl<'a> Parser<'a> for Take {
        type Out = &'a [u8];
        open spec fn wf(&self) -> bool { true }
        open spec fn sp(&self) -> Sp<Seq<u8>> { |i: Seq<u8>| p_take(self.n as nat, i) }
        #[verifier::external_body]
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, &'a [u8]>) { unimplemented!() }
    }
    pub struct Tag<'b> { pub t: &'b [u8] }
    pub open spec fn p_tag_lit(t: Seq<u8>, i: Seq<u8>) -> Pv<Seq<u8>> {
        if i.len() >= t.len() && (t.len() > 0 ==> i[0] == t[0]) && (t.len() > 1 ==> i[1] == t[1]) && (t.len() > 2 ==> i[2] == t[2]) && (t.len() > 3 ==> i[3] == t[3]) && (t.len() > 4 ==> i[4] == t[4]) && (t.len() > 5 ==> i[5] == t[5]) && (t.len() > 6 ==> i[6] == t[6]) && (t.len() > 7 ==> i[7] == t[7])
            && (forall |k: int| 8 <= k < t.len() ==> #[trigger] i[k] == t[k]) { Some((t, sk(i, t.len() as int))) } else { None }
    }
    pub fn tag<'b>(t: &'b [u8]) -> (r: Tag<'b>) ensures r.t == t { Tag { t } }
    impl<'a, 'b> Parser<'a> for Tag<'b> {
        type Out = &'a [u8];
        open spec fn wf(&self) -> bool { true }
        open spec fn sp(&self) -> Sp<Seq<u8>> { |i: Seq<u8>| p_tag_lit(self.t@, i) }
        #[verifier::external_body]
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, &'a [u8]>) { unimplemented!() }
    }
    // -- count
    pub struct Count<P> { pub f: P, pub n: usize }
    pub fn count<P>(f: P, n: usize) -> (r: Count<P>) ensures r.f == f, r.n == n { Count { f, n } }
    impl<'a, P: Parser<'a>> Parser<'a> for Count<P> {
        type Out = Vec<P::Out>;
        open spec fn wf(&self) -> bool { self.f.wf() }
        open spec fn sp(&self) -> Sp<Seq<<P::Out as Vw>::W>> { |i: Seq<u8>| p_count(self.f.sp(), self.n as nat, i) }
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, Self::Out>) {
            let mut v: Vec<P::Out> = Vec::new();
            let mut cur = i;
            let mut k: usize = 0;
            proof { assert(v.vw() =~= Seq::<<P::Out as Vw>::W>::empty()); }
            while k < self.n
                invariant self.wf(), k <= self.n, p_count(self.f.sp(), k as nat, i@) == Some((v.vw(), cur@)),
                decreases self.n - k
            {
                match self.f.parse(cur) {
                    Ok((rest, x)) => {
                        let ghost old = v@;
                        v.push(x); cur = rest; k = k + 1;
                        assert(v.vw() =~= old.map_values(|t: P::Out| t.vw()).push(x.vw()));
                    }
                    Err(e) => { proof { count_none(self.f.sp(), (k + 1) as nat, self.n as nat, i@); } return Err(e); }
                }
            }
            Ok((cur, v))
        }
    }
    // -- cond
    pub struct Cond<P> { pub b: bool, pub f: P }
    pub open spec fn p_cond<W>(b: bool, p: Sp<W>, i: Seq<u8>) -> Pv<Option<W>> {
        if b { match p(i) { Some((v, r)) => Some((Some(v), r)), None => None } } else { Some((None, i)) }
    }
    pub fn cond<P>(b: bool, f: P) -> (r: Cond<P>) ensures r.f == f, r.b == b { Cond { b, f } }
    impl<'a, P: Parser<'a>> Parser<'a> for Cond<P> {
        type Out = Option<P::Out>;
        open spec fn wf(&self) -> bool { self.f.wf() }
        open spec fn sp(&self) -> Sp<Option<<P::Out as Vw>::W>> { |i: Seq<u8>| p_cond(self.b, self.f.sp(), i) }
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, Self::Out>) {
            if self.b { match self.f.parse(i) { Ok((r, v)) => Ok((r, Some(v))), Err(e) => Err(e) } } else { Ok((i, None)) }
        }
    }
    // -- map
    pub struct Map<P, G> { pub f: P, pub g: G }
    pub open spec fn p_map<A, B>(p: Sp<A>, s: spec_fn(A) -> B, i: Seq<u8>) -> Pv<B> {
        match p(i) { Some((v, r)) => Some((s(v), r)), None => None }
    }
    pub fn map<P, G>(f: P, g: G) -> (r: Map<P, G>) ensures r.f == f, r.g == g { Map { f, g } }
    impl<'a, P: Parser<'a>, B: Vw, G: Fn(P::Out) -> B> Parser<'a> for Map<P, Gf<P::Out, B, G>> {
        type Out = B;
        open spec fn wf(&self) -> bool { self.f.wf() && grefines::<P::Out, B, G>(self.g.g, self.g.s@) }
        open spec fn sp(&self) -> Sp<B::W> { |i: Seq<u8>| p_map(self.f.sp(), self.g.s@, i) }
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, B>) {
            match self.f.parse(i) { Ok((r, v)) => Ok((r, (self.g.g)(v))), Err(e) => Err(e) }
        }
    }
    // -- flat_map(_, take)
    pub struct FlatMapTake<P> { pub f: P }
    pub struct VxTakeFn;
    pub open spec fn p_flat_take<A: ToUsize>(p: Sp<A::W>, i: Seq<u8>) -> Pv<Seq<u8>> {
        match p(i) { Some((v, r)) => p_take(A::tou(v), r), None => None }
    }
    pub fn flat_map<P>(f: P, g: VxTakeFn) -> (r: FlatMapTake<P>) ensures r.f == f { FlatMapTake { f } }
    impl<'a, A: ToUsize, P: Parser<'a, Out = A>> Parser<'a> for FlatMapTake<P> {
        type Out = &'a [u8];
        open spec fn wf(&self) -> bool { self.f.wf() }
        open spec fn sp(&self) -> Sp<Seq<u8>> { |i: Seq<u8>| p_flat_take::<A>(self.f.sp(), i) }
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, &'a [u8]>) {
            match self.f.parse(i) { Ok((r, v)) => take(v).parse(r), Err(e) => Err(e) }
        }
    }
    // -- map_res(_, from_utf8)
    pub struct VxFromUtf8;
    pub struct MapUtf8<P> { pub f: P }
    pub open spec fn p_utf8(p: Sp<Seq<u8>>, i: Seq<u8>) -> Pv<Seq<char>> {
        match p(i) { Some((v, r)) => if utf8_valid(v) { Some((utf8_str(v), r)) } else { None }, None => None }
    }
    pub fn map_res<P>(f: P, g: VxFromUtf8) -> (r: MapUtf8<P>) ensures r.f == f { MapUtf8 { f } }
    #[verifier::external_body]
    pub fn vx_from_utf8<'a>(b: &'a [u8]) -> (r: Option<&'a str>)
        ensures utf8_valid(b@) ==> r is Some && r->Some_0@ == utf8_str(b@), !utf8_valid(b@) ==> r is None
    { unimplemented!() }
    impl<'a, P: Parser<'a, Out = &'a [u8]>> Parser<'a> for MapUtf8<P> {
        type Out = &'a str;
        open spec fn wf(&self) -> bool { self.f.wf() }
        open spec fn sp(&self) -> Sp<Seq<char>> { |i: Seq<u8>| p_utf8(self.f.sp(), i) }
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, &'a str>) {
            match self.f.parse(i) { Ok((r, v)) => match vx_from_utf8(v) { Some(s) => { proof { vws_u8(v@); } Ok((r, s)) }, None => { proof { vws_u8(v@); } Err(vx_nom_error(i)) } }, Err(e) => Err(e) }
        }
    }
    // -- complete(all_consuming(many1(_)))
    pub struct Many1<P> { pub f: P }
    pub struct AllConsumingMany1<P> { pub f: P }
    pub fn many1<P>(f: P) -> (r: Many1<P>) ensures r.f == f { Many1 { f } }
    pub fn all_consuming<P>(m: Many1<P>) -> (r: AllConsumingMany1<P>) ensures r.f == m.f { AllConsumingMany1 { f: m.f } }
    pub fn complete<P>(p: P) -> (r: P) ensures r == p { p }
    pub open spec fn p_all_consuming<W>(p: Sp<W>, i: Seq<u8>) -> Pv<Seq<W>> {
        match p_all(p, i) { Some(v) => Some((v, Seq::empty())), None => None }
    }
    /// The element parser must answer empty input with a recoverable error.
    pub open spec fn eof_is_error<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>>(f: Fp<'a, O, F>) -> bool {
        forall |i: &'a [u8], r: PR<'a, O>| #[trigger] call_ensures(f.f, (i,), r) && i@.len() == 0 ==> r is Err && r->Err_0 is Error
    }
    impl<'a, O: Vw, F: Fn(&'a [u8]) -> PR<'a, O>> Parser<'a> for AllConsumingMany1<Fp<'a, O, F>> {
        type Out = Vec<O>;
        open spec fn wf(&self) -> bool { self.f.wf() && eof_is_error(self.f) }
        open spec fn sp(&self) -> Sp<Seq<O::W>> { |i: Seq<u8>| p_all_consuming(self.f.sp(), i) }
        #[verifier::external_body]
        fn parse(&self, i: &'a [u8]) -> (r: PR<'a, Vec<O>>) { unimplemented!() }
    }
}

// ------------------------------------------------- std: conversions ----
pub trait VxFrom<A>: Sized {
    spec fn from_req(a: A) -> bool;
    spec fn from_ens(a: A, r: Self) -> bool;
    fn vx_from(a: A) -> (r: Self) requires Self::from_req(a), ensures Self::from_ens(a, r);
}
macro_rules! vx_widen { ($($a:ty => $b:ty),*) => { verus! { $(impl VxFrom<$a> for $b {
    open spec fn from_req(a: $a) -> bool { true }
    open spec fn from_ens(a: $a, r: $b) -> bool { r as int == a as int }
    fn vx_from(a: $a) -> (r: $b) { a as $b } })* } } }
vx_widen!(u8 => usize, u16 => usize, u8 => i32, u8 => u16, u8 => u32, u8 => u64, u16 => u32, u16 => i32, u16 => u64, u32 => u64, i16 => i32, i8 => i32, u8 => i16, u8 => u8, u16 => u16, u32 => u32, usize => usize, i32 => i32, i32 => i64, u32 => i64);
pub uninterp spec fn f64_of_int(x: int) -> f64;
impl VxFrom<u8> for f64 {
    open spec fn from_req(a: u8) -> bool { true }
    open spec fn from_ens(a: u8, r: f64) -> bool { r == f64_of_int(a as int) }
    #[verifier::external_body] fn vx_from(a: u8) -> (r: f64) { unimplemented!() }
}
impl VxFrom<i32> for f64 {
    open spec fn from_req(a: i32) -> bool { true }
    open spec fn from_ens(a: i32, r: f64) -> bool { r == f64_of_int(a as int) }
    #[verifier::external_body] fn vx_from(a: i32) -> (r: f64) { unimplemented!() }
}
pub trait VxInto<B>: Sized { spec fn into_req(self) -> bool; spec fn into_ens(self, r: B) -> bool; fn vx_into(self) -> (r: B) requires self.into_req(), ensures self.into_ens(r); }
impl<A, B: VxFrom<A>> VxInto<B> for A {
    open spec fn into_req(self) -> bool { B::from_req(self) }
    open spec fn into_ens(self, r: B) -> bool { B::from_ens(self, r) }
    fn vx_into(self) -> (r: B) { B::vx_from(self) }
}
pub struct VxTryErr;
pub trait VxTryInto<B>: Sized { spec fn fits(self, r: B) -> bool; spec fn can(self) -> bool;
    fn vx_try_into(self) -> (r: Result<B, VxTryErr>) ensures self.can() == (r is Ok), r is Ok ==> self.fits(r->Ok_0); }
macro_rules! vx_narrow { ($($a:ty => $b:ty),*) => { verus! { $(impl VxTryInto<$b> for $a {
    open spec fn can(self) -> bool { <$b>::MIN <= self <= <$b>::MAX }
    open spec fn fits(self, r: $b) -> bool { r as int == self as int }
    fn vx_try_into(self) -> (r: Result<$b, VxTryErr>) { if <$b>::MIN as i128 <= self as i128 && self as i128 <= <$b>::MAX as i128 { Ok(self as $b) } else { Err(VxTryErr) } } })* } } }
vx_narrow!(u32 => usize, u32 => u8, u32 => u16, usize => u8, usize => u16, usize => u32, u64 => usize, u16 => u8, i32 => u8, i32 => u16, i32 => usize);
pub struct Utf8Error;
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures utf8_valid(b@) ==> r is Ok && r->Ok_0@ == utf8_str(b@), !utf8_valid(b@) ==> r is Err
{ match comb::vx_from_utf8(b) { Some(s) => Ok(s), None => Err(Utf8Error) } }
pub fn vx_assert(b: bool) requires b {}
pub fn vx_bool_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vx_bool_xor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
#[verifier::external_body] pub fn vx_panic<T>() -> T requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_format() -> String { unimplemented!() }

// ---------------------------------------------------- std: iterators ----
/// Result of the loop rewriting: the sequence the iterator yields.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFor<T> { t: Vec<T> }
impl<T> VxFor<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn index(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.index() <= self.seq().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).seq() == old(self).seq(),
            old(self).index() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).index()]) && final(self).index() == old(self).index() + 1,
            old(self).index() == old(self).seq().len() ==> r is None && final(self).index() == old(self).index(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_for<I: Iterator>(it: I) -> (r: VxFor<I::Item>)
    ensures r.wf(), r.index() == 0, r.seq() == it.remaining()
{ unimplemented!() }

/// End of a loop over mutable references: what was not reached is unchanged.
#[verifier::external_body]
pub fn vx_done<U>(it: VxFor<&mut U>) ensures forall |i: int| it.index() <= i < it.seq().len() ==> *final(#[trigger] it.seq()[i]) == *it.seq()[i] { unimplemented!() }
pub trait VxExtend<T> { spec fn sv(&self) -> Seq<T>; fn vx_extend(&mut self, o: Vec<T>) ensures final(self).sv() == old(self).sv() + o@; }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, o: Vec<T>) { unimplemented!() }
}
/// All values, or the first error.
pub trait VxTryIter<T, E>: Iterator<Item = Result<T, E>> + Sized {
    fn vx_try_collect(self) -> (r: Result<Vec<T>, E>)
        ensures r is Ok ==> self.will_return_none() && r->Ok_0@.len() == self.remaining().len() && forall |i: int| #![trigger self.remaining()[i]] #![trigger r->Ok_0@[i]] 0 <= i < self.remaining().len() ==> self.remaining()[i] == Ok::<T, E>(r->Ok_0@[i]),
            r is Err ==> exists |i: int| 0 <= i < self.remaining().len() && #[trigger] self.remaining()[i] == Err::<T, E>(r->Err_0);
}
impl<T, E, I: Iterator<Item = Result<T, E>>> VxTryIter<T, E> for I {
    #[verifier::external_body] fn vx_try_collect(self) -> (r: Result<Vec<T>, E>) { unimplemented!() }
}
pub open spec fn seq_filter_map<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = seq_filter_map(s.drop_last(), f);
        match f(s.last()) { Some(b) => r.push(b), None => r }
    }
}
pub open spec fn seq_flat_map<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>) -> Seq<B>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { seq_flat_map(s.drop_last(), f) + f(s.last()) } }

/// Closure argument of an iterator adapter together with its specification
/// on views.
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Cf<A: Vw, B: Vw, F: Fn(A) -> B> { pub f: F, pub s: Ghost<spec_fn(A::W) -> B::W>, pub ph: core::marker::PhantomData<(A, B)> }
pub fn vx_c<A: Vw, B: Vw, F: Fn(A) -> B>(f: F, Ghost(s): Ghost<spec_fn(A::W) -> B::W>) -> (r: Cf<A, B, F>)
    requires forall |x: A| #[trigger] call_requires(f, (x,)), forall |x: A, y: B| #[trigger] call_ensures(f, (x,), y) ==> y.vw() == s(x.vw())
    ensures r.f == f, r.s@ == s
{ Cf { f, s: Ghost(s), ph: core::marker::PhantomData } }
/// Closure which returns an iterator, specified by the views of its items.
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Cff<A: Vw, B: Vw, F: Fn(A) -> std::vec::IntoIter<B>> { pub f: F, pub s: Ghost<spec_fn(A::W) -> Seq<B::W>>, pub ph: core::marker::PhantomData<(A, B)> }
pub fn vx_cf<A: Vw, B: Vw, F: Fn(A) -> std::vec::IntoIter<B>>(f: F, Ghost(s): Ghost<spec_fn(A::W) -> Seq<B::W>>) -> (r: Cff<A, B, F>)
    requires forall |x: A| #[trigger] call_requires(f, (x,)), forall |x: A, y: std::vec::IntoIter<B>| #[trigger] call_ensures(f, (x,), y) ==> vws(y.remaining()) == s(x.vw())
    ensures r.f == f, r.s@ == s
{ Cff { f, s: Ghost(s), ph: core::marker::PhantomData } }
/// Views of references are views of what they refer to.
pub broadcast proof fn l_refs<T: Vw>(s: Seq<&T>, t: Seq<T>)
    requires s.len() == t.len(), forall |i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == t[i]
    ensures #![trigger vws(s), vws(t)] vws(s) == vws(t)
{ assert(vws(s) =~= vws(t)); }
pub trait VxIter: Iterator + Sized {
    fn vx_enumerate(self) -> (r: std::vec::IntoIter<(usize, Self::Item)>)
        ensures r.remaining().len() == self.remaining().len(), r.obeys_prophetic_iter_laws(),
            forall |i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == (i as usize, self.remaining()[i]);
    fn vx_filter_map<B: Vw, F: Fn(Self::Item) -> Option<B>>(self, f: Cf<Self::Item, Option<B>, F>) -> (r: std::vec::IntoIter<B>) where Self::Item: Vw
        ensures vws(r.remaining()) == seq_filter_map(vws(self.remaining()), f.s@), r.obeys_prophetic_iter_laws();
    fn vx_flat_map<B: Vw, F: Fn(Self::Item) -> std::vec::IntoIter<B>>(self, f: Cff<Self::Item, B, F>) -> (r: std::vec::IntoIter<B>) where Self::Item: Vw
        ensures vws(r.remaining()) == seq_flat_map(vws(self.remaining()), f.s@), r.obeys_prophetic_iter_laws();
    fn vx_peekable(self) -> (r: Peekable<Self>) ensures r.rest() == self.remaining();
}
impl<I: Iterator> VxIter for I {
    #[verifier::external_body] fn vx_enumerate(self) -> (r: std::vec::IntoIter<(usize, Self::Item)>) { unimplemented!() }
    #[verifier::external_body] fn vx_filter_map<B: Vw, F: Fn(Self::Item) -> Option<B>>(self, f: Cf<Self::Item, Option<B>, F>) -> (r: std::vec::IntoIter<B>) where Self::Item: Vw { unimplemented!() }
    #[verifier::external_body] fn vx_flat_map<B: Vw, F: Fn(Self::Item) -> std::vec::IntoIter<B>>(self, f: Cff<Self::Item, B, F>) -> (r: std::vec::IntoIter<B>) where Self::Item: Vw { unimplemented!() }
    #[verifier::external_body] fn vx_peekable(self) -> (r: Peekable<Self>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I: Iterator> { i: I }
impl<I: Iterator> Peekable<I> {
    pub uninterp spec fn rest(&self) -> Seq<I::Item>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I::Item>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_if<F: Fn(&I::Item) -> bool>(&mut self, f: F) -> (r: Option<I::Item>)
        requires forall |x: &I::Item| #[trigger] call_requires(f, (x,))
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> (
                (call_ensures(f, (&old(self).rest()[0],), true) && r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first())
                || (call_ensures(f, (&old(self).rest()[0],), false) && r is None && final(self).rest() == old(self).rest())),
    { unimplemented!() }
}
pub open spec fn chunk_count(len: int, n: int) -> int { (len + n - 1) / n }
pub open spec fn chunk_end(len: int, n: int, i: int) -> int { if (i + 1) * n <= len { (i + 1) * n } else { len } }
pub trait VxSlice<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: std::vec::IntoIter<&'a [T]>)
        requires n > 0
        ensures r.obeys_prophetic_iter_laws(), r.remaining().len() == chunk_count(self.sq().len() as int, n as int),
            forall |i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == self.sq().subrange(i * n, chunk_end(self.sq().len() as int, n as int, i));
}
impl<T> VxSlice<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: std::vec::IntoIter<&'a [T]>) { unimplemented!() }
}
pub trait VxBool: Sized { spec fn bo(self) -> bool; fn vx_then_some<T>(self, t: T) -> (r: Option<T>) ensures r == if self.bo() { Some(t) } else { None };
    fn vx_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>) requires self.bo() ==> f.requires(()) ensures r is Some == self.bo(), r is Some ==> f.ensures((), r->Some_0); }
impl VxBool for bool {
    open spec fn bo(self) -> bool { self }
    fn vx_then_some<T>(self, t: T) -> (r: Option<T>) { if self { Some(t) } else { None } }
    fn vx_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>) { if self { Some(f()) } else { None } }
}
pub trait VxOptTake<T>: Sized { spec fn ot(self) -> Option<T>; fn vx_take(&mut self) -> (r: Option<T>) ensures r == old(self).ot(), final(self).ot() == None::<T>; }
impl<T> VxOptTake<T> for Option<T> { open spec fn ot(self) -> Option<T> { self } fn vx_take(&mut self) -> (r: Option<T>) { self.take() } }
pub trait VxOption<T>: Sized { spec fn op(self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.op(); }
impl<'b, T: Copy> VxOption<T> for Option<&'b T> {
    open spec fn op(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn vx_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
pub trait VxContains<X> { spec fn has_spec(&self, x: X) -> bool; fn vx_contains(&self, x: &X) -> (r: bool) ensures r == self.has_spec(*x); }
impl VxContains<i32> for core::ops::RangeInclusive<i32> {
    open spec fn has_spec(&self, x: i32) -> bool { !self@.exhausted && self@.start <= x <= self@.end }
    #[verifier::external_body] fn vx_contains(&self, x: &i32) -> (r: bool) { unimplemented!() }
}
impl<'b> VxContains<&'b str> for [&'b str] {
    open spec fn has_spec(&self, x: &'b str) -> bool { exists |k: int| 0 <= k < self@.len() && (#[trigger] self@[k])@ == x@ }
    #[verifier::external_body] fn vx_contains(&self, x: &&'b str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: K, v: V }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self.m().dom().contains(*k), r is Some ==> *r->Some_0 == self.m()[*k] { unimplemented!() }
    #[verifier::external_body] pub fn vx_index(&self, k: &K) -> (r: V) requires self.m().dom().contains(*k) ensures r == self.m()[*k] { unimplemented!() }
}
// ------------------------------------------------------ std: hashing ----
#[verifier::external_body] pub struct DefaultHasher { x: u64 }
pub uninterp spec fn hash_init() -> int;
pub uninterp spec fn hash_prim<T>(st: int, x: T) -> int;
pub uninterp spec fn hash_fin(st: int) -> u64;
impl DefaultHasher {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.st() == hash_init() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == hash_fin(self.st()) { unimplemented!() }
}
pub trait Hasher {} pub trait Hash {}
/// Integers enter the hasher as they are, tuples component by component.
pub trait VxHash: Sized { spec fn hs(self, st: int) -> int; fn vx_hash(&self, h: &mut DefaultHasher) ensures final(h).st() == self.hs(old(h).st()); }
macro_rules! vx_hash_prim { ($($a:ty),*) => { verus! { $(impl VxHash for $a {
    open spec fn hs(self, st: int) -> int { hash_prim(st, self) }
    #[verifier::external_body] fn vx_hash(&self, h: &mut DefaultHasher) { unimplemented!() } })* } } }
vx_hash_prim!(u8, u16, u32, u64, usize, i8, i16, i32, i64, bool);
impl<A: VxHash, B: VxHash> VxHash for (A, B) {
    open spec fn hs(self, st: int) -> int { self.1.hs(self.0.hs(st)) }
    fn vx_hash(&self, h: &mut DefaultHasher) { self.0.vx_hash(h); self.1.vx_hash(h); }
}
impl<A: VxHash, B: VxHash, C: VxHash> VxHash for (A, B, C) {
    open spec fn hs(self, st: int) -> int { self.2.hs(self.1.hs(self.0.hs(st))) }
    fn vx_hash(&self, h: &mut DefaultHasher) { self.0.vx_hash(h); self.1.vx_hash(h); self.2.vx_hash(h); }
}
impl<A: VxHash, B: VxHash, C: VxHash, D: VxHash> VxHash for (A, B, C, D) {
    open spec fn hs(self, st: int) -> int { self.3.hs(self.2.hs(self.1.hs(self.0.hs(st)))) }
    fn vx_hash(&self, h: &mut DefaultHasher) { self.0.vx_hash(h); self.1.vx_hash(h); self.2.vx_hash(h); self.3.vx_hash(h); }
}
// ------------------------------------------------------------ flate2 ----
pub uninterp spec fn zlib_stream(d: Seq<u8>) -> Option<Seq<u8>>;
pub mod flate2 {
    use vstd::prelude::*;
    use super::*;
    pub enum FlushDecompress { None, Sync, Finish }
    pub enum Status { Ok, BufError, StreamEnd }
    pub struct DecompressError;
    #[verifier::external_body] pub struct Decompress { x: u8 }
    impl Decompress {
        pub uninterp spec fn zlib(&self) -> bool;
        pub uninterp spec fn fresh(&self) -> bool;
        pub uninterp spec fn out(&self) -> u64;
        #[verifier::external_body] pub fn new(zlib: bool) -> (r: Self) ensures r.zlib() == zlib, r.fresh(), r.out() == 0 { unimplemented!() }
        /// One-shot decompression of a zlib stream. `StreamEnd` is reported
        /// iff the input holds a complete stream whose content fits.
        #[verifier::external_body]
        pub fn decompress(&mut self, data: &[u8], target: &mut [u8], f: FlushDecompress) -> (r: Result<Status, DecompressError>)
            ensures
                final(target)@.len() == old(target)@.len(),
                old(self).zlib() && old(self).fresh() && f is Finish ==> {
                    &&& (r is Ok && r->Ok_0 is StreamEnd) == (zlib_stream(data@) is Some && zlib_stream(data@)->Some_0.len() <= old(target)@.len())
                    &&& r is Ok && r->Ok_0 is StreamEnd ==> final(self).out() == zlib_stream(data@)->Some_0.len()
                        && final(target)@.subrange(0, zlib_stream(data@)->Some_0.len() as int) == zlib_stream(data@)->Some_0
                },
        { unimplemented!() }
        #[verifier::external_body] pub fn total_out(&self) -> (r: u64) ensures r == self.out() { unimplemented!() }
    }
}
// ------------------------------------------------ floating point (f64) ----
pub uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f_cmp(a: f64, b: f64) -> Option<core::cmp::Ordering>;
pub uninterp spec fn f_min(a: f64, b: f64) -> f64;
pub uninterp spec fn f_max(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sqrt(a: f64) -> f64;
pub uninterp spec fn f_to_u8(a: f64) -> u8;
pub uninterp spec fn f_to_u32(a: f64) -> u32;
pub open spec fn f_lt(a: f64, b: f64) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Less) }
pub open spec fn f_gt(a: f64, b: f64) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn f_le(a: f64, b: f64) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Less) || f_cmp(a, b) == Some(core::cmp::Ordering::Equal) }
pub assume_specification [f64::min] (a: f64, b: f64) -> (r: f64) ensures r == f_min(a, b);
pub assume_specification [f64::max] (a: f64, b: f64) -> (r: f64) ensures r == f_max(a, b);
pub assume_specification [f64::sqrt] (a: f64) -> (r: f64) ensures r == f_sqrt(a);
pub assume_specification<Idx: Clone> [<core::ops::RangeInclusive<Idx> as Clone>::clone] (r: &core::ops::RangeInclusive<Idx>) -> (q: core::ops::RangeInclusive<Idx>) ensures q == *r;
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32) ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [i32::abs] (a: i32) -> (r: i32) requires a > i32::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [u16::saturating_add_signed] (a: u16, b: i16) -> (r: u16) ensures r as int == if a + b < 0 { 0int } else if a + b > 65535 { 65535int } else { a + b };
pub assume_specification [u8::abs_diff] (a: u8, b: u8) -> (r: u8) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r as int == if a < b { b - a } else { a - b };
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or::<U, F>] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)) ensures o is Some ==> f.ensures((o->Some_0,), r), o is None ==> r == d;
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,)) ensures o is Some ==> f.ensures((o->Some_0,), r), o is None ==> !r;
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires o is Some ==> f.requires((&o->Some_0,)) ensures r is Some ==> r == o && f.ensures((&o->Some_0,), true), o is Some && r is None ==> f.ensures((&o->Some_0,), false);
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a is Some { a } else { b };
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T, const N: usize> [<[T; N] as AsRef<[T]>>::as_ref] (a: &[T; N]) -> (r: &[T]) ensures r@ == a@;
pub broadcast axiom fn ax_add(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_sub(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mul(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_div(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_add2(a: f64, b: f64) ensures #[trigger] a.add_spec(b) == f_add(a, b);
pub broadcast axiom fn ax_sub2(a: f64, b: f64) ensures #[trigger] a.sub_spec(b) == f_sub(a, b);
pub broadcast axiom fn ax_mul2(a: f64, b: f64) ensures #[trigger] a.mul_spec(b) == f_mul(a, b);
pub broadcast axiom fn ax_div2(a: f64, b: f64) ensures #[trigger] a.div_spec(b) == f_div(a, b);
pub broadcast axiom fn ax_add3() ensures #[trigger] <f64 as vstd::std_specs::ops::AddSpec>::obeys_add_spec();
pub broadcast axiom fn ax_sub3() ensures #[trigger] <f64 as vstd::std_specs::ops::SubSpec>::obeys_sub_spec();
pub broadcast axiom fn ax_mul3() ensures #[trigger] <f64 as vstd::std_specs::ops::MulSpec>::obeys_mul_spec();
pub broadcast axiom fn ax_div3() ensures #[trigger] <f64 as vstd::std_specs::ops::DivSpec>::obeys_div_spec();
pub broadcast axiom fn ax_cmp() ensures #[trigger] <f64 as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_cmp2(a: f64, b: f64) ensures #[trigger] a.partial_cmp_spec(&b) == f_cmp(a, b);
// Laws of IEEE 754 (commutativity up to the payload of a NaN, which nothing
// in the crate looks at); all tested by `oracle shims`.
pub open spec fn flip(o: Option<core::cmp::Ordering>) -> Option<core::cmp::Ordering> {
    match o {
        Some(core::cmp::Ordering::Less) => Some(core::cmp::Ordering::Greater),
        Some(core::cmp::Ordering::Greater) => Some(core::cmp::Ordering::Less),
        _ => o,
    }
}
/// Not a NaN.
pub uninterp spec fn f_num(a: f64) -> bool;
pub broadcast axiom fn ax_add_comm(a: f64, b: f64) ensures #[trigger] f_add(a, b) == f_add(b, a);
pub broadcast axiom fn ax_mul_comm(a: f64, b: f64) ensures #[trigger] f_mul(a, b) == f_mul(b, a);
pub broadcast axiom fn ax_cmp_flip(a: f64, b: f64) ensures #[trigger] f_cmp(a, b) == flip(f_cmp(b, a));
pub broadcast axiom fn ax_cmp_num(a: f64, b: f64) requires f_num(a), f_num(b) ensures #[trigger] f_cmp(a, b) is Some;
pub broadcast axiom fn ax_num_unit(x: int) requires 0 <= x <= 255 ensures #[trigger] f_num(f_div(f64_of_int(x), 255.0f64));
pub broadcast axiom fn ax_num_min(a: f64, b: f64) requires f_num(a), f_num(b) ensures #[trigger] f_num(f_min(a, b));
pub broadcast axiom fn ax_num_max(a: f64, b: f64) requires f_num(a), f_num(b) ensures #[trigger] f_num(f_max(a, b));
pub broadcast axiom fn ax_num_0() ensures #[trigger] f_num(0.0f64);
pub broadcast axiom fn ax_num_025() ensures #[trigger] f_num(0.25f64);
pub broadcast axiom fn ax_num_05() ensures #[trigger] f_num(0.5f64);
pub broadcast axiom fn ax_num_1() ensures #[trigger] f_num(1.0f64);
pub broadcast group floats { ax_add_comm, ax_mul_comm, ax_cmp_flip, ax_cmp_num, ax_num_unit, ax_num_min, ax_num_max, ax_num_0, ax_num_025, ax_num_05, ax_num_1, ax_add, ax_sub, ax_mul, ax_div, ax_add2, ax_sub2, ax_mul2, ax_div2, ax_add3, ax_sub3, ax_mul3, ax_div3, ax_cmp, ax_cmp2 }
/// Shifts of signed 32 bit numbers as arithmetic.
pub broadcast proof fn l_shr8(x: i32) ensures (#[trigger] (x >> 8)) * 256 <= x, x < (x >> 8) * 256 + 256 { assert((x >> 8) * 256 <= x && x < (x >> 8) * 256 + 256) by (bit_vector); }
pub broadcast proof fn l_shl1(x: i32) requires -0x4000_0000 <= x < 0x4000_0000 ensures #[trigger] (x << 1) == 2 * x { assert(x << 1 == 2 * x) by (bit_vector) requires -0x4000_0000 <= x < 0x4000_0000; }
pub broadcast group shifts { l_shr8, l_shl1 }
/// No object of any supported target spans more than 2^60 bytes.
pub broadcast axiom fn ax_slice_len(s: &[u8]) ensures #[trigger] s@.len() <= 0x1000_0000_0000_0000;
pub broadcast axiom fn ax_vec_len(v: Vec<crate::binary::scalars::RGB>) ensures #[trigger] v@.len() <= 0x1000_0000_0000_0000;
pub broadcast group shims { ax_vec_len, floats, shifts, ax_slice_len }
/// Casts with a floating point operand.
pub trait VxAs<T>: Sized { spec fn as_ens(self, r: T) -> bool; fn vx_as(self) -> (r: T) ensures self.as_ens(r); }
impl VxAs<f64> for i32 { open spec fn as_ens(self, r: f64) -> bool { r == f64_of_int(self as int) } #[verifier::external_body] fn vx_as(self) -> (r: f64) { unimplemented!() } }
impl VxAs<f64> for u8 { open spec fn as_ens(self, r: f64) -> bool { r == f64_of_int(self as int) } #[verifier::external_body] fn vx_as(self) -> (r: f64) { unimplemented!() } }
impl VxAs<u8> for f64 { open spec fn as_ens(self, r: u8) -> bool { r == f_to_u8(self) } #[verifier::external_body] fn vx_as(self) -> (r: u8) { unimplemented!() } }
impl VxAs<u32> for f64 { open spec fn as_ens(self, r: u32) -> bool { r == f_to_u32(self) } #[verifier::external_body] fn vx_as(self) -> (r: u32) { unimplemented!() } }
impl VxAs<i32> for u32 { open spec fn as_ens(self, r: i32) -> bool { r == self as i32 } fn vx_as(self) -> (r: i32) { self as i32 } }
impl VxAs<i32> for u8 { open spec fn as_ens(self, r: i32) -> bool { r == self as i32 } fn vx_as(self) -> (r: i32) { self as i32 } }
impl VxAs<u8> for i32 { open spec fn as_ens(self, r: u8) -> bool { r == self as u8 } fn vx_as(self) -> (r: u8) { self as u8 } }
// -------------------------------------------------- function pointers ----
/// Value of a function pointer type `fn(A, B, C) -> R` together with the
/// function it denotes. The conversion requires the contract of the
/// converted function.
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(R)]
#[verifier::external_body]
pub struct VxFn3<A, B, C, R> { f: fn(A, B, C) -> R }
impl<A, B, C, R> VxFn3<A, B, C, R> {
    pub uninterp spec fn s(&self) -> spec_fn(A, B, C) -> R;
    #[verifier::external_body]
    pub fn vx_call(&self, a: A, b: B, c: C) -> (r: R) ensures r == (self.s())(a, b, c) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fnptr3<A, B, C, R, F: Fn(A, B, C) -> R>(f: F, Ghost(s): Ghost<spec_fn(A, B, C) -> R>) -> (r: VxFn3<A, B, C, R>)
    requires forall |a: A, b: B, c: C| #[trigger] call_requires(f, (a, b, c)), forall |a: A, b: B, c: C, y: R| #[trigger] call_ensures(f, (a, b, c), y) ==> y == s(a, b, c)
    ensures r.s() == s
{ unimplemented!() }
}
