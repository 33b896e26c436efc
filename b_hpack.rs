#![verifier::allow_complex_invariants]
#![verifier::loop_isolation(false)]
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, dead_code, unused_parens, unused_braces, unused_mut, non_snake_case, unused_assignments)]
use vstd::prelude::*;

// Trusted contracts of the standard library (and of the language) that the
// extracted code relies on. Everything in this file is assumed, not proved;
// the check lists every item of it in its evidence.
pub mod trust {
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::convert::*;
#[allow(unused_imports)] use vstd::std_specs::ops::*;
use core::ops::{Range, RangeTo};
use std::collections::VecDeque;

verus! {

// `x?` converts the error with From::from.
pub broadcast axiom fn axiom_question_mark<S: From<T>, T>(value: T, ret: S)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(value, ret)
    ensures call_ensures(<S as From<T>>::from, (value,), ret);

// impl<T> From<T> for T is the identity.
pub axiom fn axiom_from_self<T>()
    ensures <T as FromSpec<T>>::obeys_from_spec(), forall|v: T| #[trigger] <T as FromSpec<T>>::from_spec(v) == v;

// `x -= &y` on octets is `x -= y`.
pub broadcast axiom fn axiom_sub_assign_obeys<T>() where u8: SubAssignSpec<T>
    ensures #[trigger] <u8 as SubAssignSpec<T>>::obeys_sub_assign_spec();
pub broadcast axiom fn axiom_sub_assign_ref(a: u8, b: &u8)
    ensures
        #![trigger <u8 as SubAssignSpec<&u8>>::sub_assign_req(&a, b)] #![trigger <u8 as SubAssignSpec<&u8>>::sub_assign_spec(&a, b)]
        <u8 as SubAssignSpec<&u8>>::sub_assign_req(&a, b) == (a >= *b),
        <u8 as SubAssignSpec<&u8>>::sub_assign_spec(&a, b) == (a - *b) as u8;

// A Vec<u8> never holds more than isize::MAX bytes.
pub broadcast axiom fn axiom_vec_u8_len(v: Vec<u8>)
    ensures #[trigger] v@.len() <= isize::MAX;

// No machine addresses 2^60 octets, so no Vec<u8> holds as many.
pub broadcast axiom fn axiom_vec_short(v: Vec<u8>)
    ensures #[trigger] v@.len() < 0x1000_0000_0000_0000;

// A clone of an entry of a flattened table is that entry.
pub broadcast axiom fn axiom_cloned_entry(a: (Option<u8>, Option<u16>, u8), b: (Option<u8>, Option<u16>, u8))
    ensures #[trigger] cloned(a, b) ==> a == b;

pub assume_specification[ u32::pow ](b: u32, e: u32) -> (r: u32)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u32::MAX
    ensures r as int == vstd::arithmetic::power::pow(b as int, e as nat);
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, default: T) -> (x: T)
    ensures x == (match r { Ok(v) => v, Err(_) => default });

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

// `f` is `o` followed by some prefix of `bytes`.
#[verifier::opaque]
pub open spec fn partial(o: Seq<u8>, f: Seq<u8>, bytes: Seq<u8>) -> bool {
    exists|k: int| 0 <= k <= bytes.len() && f == o + #[trigger] bytes.take(k)
}

pub mod io {
    use vstd::prelude::*;
    pub use std::io::Error;
    // std::io::Write, as far as write_all: Ok means that all of `data` was
    // appended to the sink, Err that some prefix of it was.
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn reliable(&self) -> bool;
        fn write_all(&mut self, data: &[u8]) -> (r: Result<(), Error>)
            ensures
                r is Ok ==> final(self).out() == old(self).out() + data@,
                r is Err ==> super::partial(old(self).out(), final(self).out(), data@),
                old(self).reliable() ==> r is Ok,
                final(self).reliable() == old(self).reliable();
    }
    // Writing to a Vec<u8> appends and never fails.
    impl Write for Vec<u8> {
        open spec fn out(&self) -> Seq<u8> { self@ }
        open spec fn reliable(&self) -> bool { true }
        #[verifier::external_body]
        fn write_all(&mut self, data: &[u8]) -> (r: Result<(), Error>) { std::io::Write::write_all(self, data) }
    }
}

// v.drain(range); as a statement: removes that range.
pub trait VRange {
    spec fn lo(&self) -> int;
    spec fn hi(&self) -> int;
}
impl VRange for Range<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self) -> int { self.end as int }
}
impl VRange for RangeTo<usize> {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self) -> int { self.end as int }
}
pub trait VecExt<T> {
    spec fn vseq(&self) -> Seq<T>;
    spec fn vcap(&self) -> nat;
    fn v_drain<R: VRange + core::ops::RangeBounds<usize>>(&mut self, r: R)
        requires 0 <= r.lo() <= r.hi() <= old(self).vseq().len()
        ensures final(self).vseq() == old(self).vseq().take(r.lo()) + old(self).vseq().skip(r.hi());
    fn v_capacity(&self) -> (n: usize)
        ensures n == self.vcap(), n >= self.vseq().len();
}
pub uninterp spec fn vec_capacity<T>(v: Vec<T>) -> nat;
impl<T> VecExt<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    open spec fn vcap(&self) -> nat { vec_capacity(*self) }
    #[verifier::external_body]
    fn v_drain<R: VRange + core::ops::RangeBounds<usize>>(&mut self, r: R) { self.drain(r); }
    #[verifier::external_body]
    fn v_capacity(&self) -> (n: usize) { self.capacity() }
}
// A fresh vector of a (non zero sized) type has exactly the capacity asked for.
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (v: Vec<T>)
    requires n <= 0x7fff_ffff
    ensures v@.len() == 0, vec_capacity(v) == n
{ Vec::with_capacity(n) }

// Memory that is asked for has to be bounded: what is asked for beyond the bound may abort.
pub fn vec_of<T: Clone>(e: T, n: usize) -> (v: Vec<T>)
    requires n <= 0x7fff_ffff
    ensures v@.len() == n, forall|i: int| 0 <= i < n ==> cloned::<T>(e, #[trigger] v@[i])
{ vec![e; n] }
pub trait VecMore<T> {
    spec fn mseq(&self) -> Seq<T>;
    fn v_reserve(&mut self, n: usize)
        requires n <= 0x7fff_ffff
        ensures final(self).mseq() == old(self).mseq();
    fn v_resize(&mut self, n: usize, e: T) where T: Clone
        requires n <= 0x7fff_ffff
        ensures final(self).mseq().len() == n,
            n <= old(self).mseq().len() ==> final(self).mseq() == old(self).mseq().take(n as int),
            forall|i: int| 0 <= i < n && i < old(self).mseq().len() ==> #[trigger] final(self).mseq()[i] == old(self).mseq()[i],
            forall|i: int| old(self).mseq().len() <= i < n ==> cloned::<T>(e, #[trigger] final(self).mseq()[i]);
}
impl<T> VecMore<T> for Vec<T> {
    open spec fn mseq(&self) -> Seq<T> { self@ }
    fn v_reserve(&mut self, n: usize) { self.reserve(n); }
    fn v_resize(&mut self, n: usize, e: T) where T: Clone { self.resize(n, e); }
}

// (a as f64 / b as f64).ceil() as usize
#[verifier::external_body]
pub fn ceil_div(a: usize, b: usize) -> (r: usize)
    requires b > 0, a < 4096, b < 64
    ensures r as int == (a as int + b as int - 1) / (b as int)
{ (a as f64 / b as f64).ceil() as usize }

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger s@[i]] #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]), s@ =~= r@ ==> s@ == r@;
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](d: &mut [T], s: &[T])
    requires old(d)@.len() == s@.len()
    ensures final(d)@.len() == s@.len(), forall|i: int| #![trigger s@[i]] #![trigger final(d)@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], final(d)@[i]);
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::get ](v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None });

pub assume_specification[ <u64 as core::convert::From<bool>>::from ](b: bool) -> (r: u64)
    ensures r == (if b { 1u64 } else { 0u64 });
// ---- text (as far as the parser of the code table goes)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub open spec fn str_bytes(s: &str) -> Seq<u8> { vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) }
pub open spec fn all_ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 }
pub open spec fn white(b: u8) -> bool { b == 32 || 9 <= b <= 13 }
pub open spec fn trim_start(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b[0]) { trim_start(b.skip(1)) } else { b } }
pub open spec fn trim_end(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b.last()) { trim_end(b.drop_last()) } else { b } }
// text[range]
pub assume_specification<I: core::slice::SliceIndex<str>> [ <str as core::ops::Index<I>>::index ] (s: &str, i: I) -> (r: &<I as core::slice::SliceIndex<str>>::Output)
    ensures vstd::slice::SliceIndexSpec::index_postcondition(&i, s, r);
// str::trim, of ASCII text
pub assume_specification [str::trim] (s: &str) -> (r: &str)
    ensures all_ascii(str_bytes(s)) ==> str_bytes(r) == trim_end(trim_start(str_bytes(s)));
pub open spec fn hex_digit(b: u8) -> Option<int> { if 48 <= b <= 57 { Some(b - 48) } else if 97 <= b <= 102 { Some(b - 87) } else if 65 <= b <= 70 { Some(b - 55) } else { None } }
pub open spec fn hex(b: Seq<u8>) -> Option<int> decreases b.len() {
    if b.len() == 0 { None } else { match hex_digit(b.last()) { None => None, Some(d) => if b.len() == 1 { Some(d) } else { match hex(b.drop_last()) { Some(h) => Some(16 * h + d), None => None } } } }
}
// u32::from_str_radix(s, 16)
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires radix == 16
    ensures match hex(str_bytes(s)) { Some(v) => if v <= u32::MAX { r == Ok::<u32, std::num::ParseIntError>(v as u32) } else { r is Err }, None => true };
// str::lines
pub open spec fn line_end(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 || b[0] == 10 { 0 } else { 1 + line_end(b.skip(1)) } }
pub open spec fn no_cr(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 13 { b.drop_last() } else { b } }
pub open spec fn lines_of(b: Seq<u8>) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else if line_end(b) >= b.len() || line_end(b) < 0 { seq![b] } else { seq![no_cr(b.take(line_end(b)))] + lines_of(b.skip(line_end(b) + 1)) }
}
pub trait StrExt {
    spec fn text(&self) -> Seq<u8>;
    fn v_lines<'a>(&'a self) -> (r: Vec<&'a str>)
        ensures r@.len() == lines_of(self.text()).len(), forall|i: int| 0 <= i < r@.len() ==> str_bytes(#[trigger] r@[i]) == lines_of(self.text())[i];
}
impl StrExt for str {
    open spec fn text(&self) -> Seq<u8> { str_bytes(self) }
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: Vec<&'a str>) { self.lines().collect() }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
// A string is exactly the characters of its valid UTF-8.
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r {
        Ok(s) => vstd::utf8::valid_utf8(v@) && s@ == vstd::utf8::decode_utf8(v@),
        Err(_) => !vstd::utf8::valid_utf8(v@),
    };

// Little-endian bytes of fixed-width numbers.
pub open spec fn le4(v: u32) -> Seq<u8> {
    seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]
}
pub open spec fn le8(v: u64) -> Seq<u8> {
    seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8]
}
pub open spec fn un4(b: Seq<u8>) -> u32 {
    (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)
}
pub open spec fn un8(b: Seq<u8>) -> u64 {
    (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24) | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)
}
// The bit patterns of floating-point numbers (uninterpreted) and back.
pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f64_bits(v: f64) -> u64;

pub trait LeBytes<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    spec fn is_le(self, b: Seq<u8>) -> bool;
    fn v_to_le_bytes(self) -> (r: [u8; N])
        ensures r@ == self.le();
    fn v_from_le_bytes(b: [u8; N]) -> (r: Self)
        ensures r.is_le(b@);
}
impl LeBytes<4> for u32 {
    open spec fn le(self) -> Seq<u8> { le4(self) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un4(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { u32::from_le_bytes(b) }
}
impl LeBytes<4> for i32 {
    open spec fn le(self) -> Seq<u8> { le4(self as u32) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un4(b) as i32 }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { i32::from_le_bytes(b) }
}
impl LeBytes<4> for f32 {
    open spec fn le(self) -> Seq<u8> { le4(f32_bits(self)) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { f32_bits(self) == un4(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { f32::from_le_bytes(b) }
}
impl LeBytes<8> for u64 {
    open spec fn le(self) -> Seq<u8> { le8(self) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un8(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { u64::from_le_bytes(b) }
}
impl LeBytes<8> for i64 {
    open spec fn le(self) -> Seq<u8> { le8(self as u64) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un8(b) as i64 }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { i64::from_le_bytes(b) }
}
impl LeBytes<8> for f64 {
    open spec fn le(self) -> Seq<u8> { le8(f64_bits(self)) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { f64_bits(self) == un8(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { f64::from_le_bytes(b) }
}

} // verus!
}

// The Huffman code of RFC 7541 (appendix B) and what encoding and decoding with
// it mean, independently of the code.
pub mod hspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::hints::*;
use vstd::arithmetic::power2::pow2;
verus! {

global size_of usize == 8;


#[verifier::memoize]
pub open spec fn pow2i(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }
// The n low bits of v, most significant first.
pub open spec fn bits(n: int, v: int) -> Seq<bool> decreases n
{ if n <= 0 { Seq::empty() } else { bits(n - 1, v / 2).push(v % 2 == 1) } }
pub open spec fn clen(c: int) -> int { rfc(c).0 }
pub open spec fn cval(c: int) -> int { rfc(c).1 }
pub open spec fn code(c: int) -> Seq<bool> { bits(clen(c), cval(c)) }
pub open spec fn ones(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { bits_of(b.drop_last()) + bits(8, b.last() as int) } }
// The codes of a string, one after the other.
pub open spec fn enc_bits(s: Seq<u8>) -> Seq<bool> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { code(s[0] as int) + enc_bits(s.skip(1)) } }
pub open spec fn pad(n: int) -> int { (8 - n % 8) % 8 }
// `out` is the encoding of `s`: its codes, padded with ones (the start of EOS) to a whole octet.
pub open spec fn huff(s: Seq<u8>, out: Seq<u8>) -> bool {
    bits_of(out) == enc_bits(s) + ones(pad(enc_bits(s).len() as int))
}

// ------------------------------------------------------- tables
// (length, value) of the bits that lead to a row; a code that goes on from there; whether the row is used
pub open spec fn sym_ok(s: int, p: (int, int, int, bool), k: int, c: int, l: int) -> bool {
    &&& 0 <= c <= 256
    &&& 0 <= l < s
    &&& clen(c) == p.0 + s - l
    &&& cval(c) == p.1 * pow2i(s - l) + k / pow2i(l)
}
pub open spec fn next_ok(s: int, p: (int, int, int, bool), k: int, q: (int, int, int, bool)) -> bool {
    q.3 && q.0 == p.0 + s && q.1 == p.1 * pow2i(s) + k
}
pub open spec fn row_ok(p: (int, int, int, bool)) -> bool {
    &&& 0 <= p.2 <= 256
    &&& 0 <= p.0 < clen(p.2)
    &&& 0 <= p.1 < pow2i(p.0)
    &&& cval(p.2) / pow2i(clen(p.2) - p.0) == p.1
}

// ------------------------------------------------------- numbers and bits
pub proof fn lemma_pow2i(n: int)
    requires 0 <= n
    ensures pow2i(n) == pow2(n as nat), pow2i(n) > 0, pow2i(n + 1) == 2 * pow2i(n)
    decreases n
{
    if n > 0 { lemma_pow2i(n - 1); vstd::arithmetic::power2::lemma_pow2_unfold(n as nat); }
    else { vstd::arithmetic::power2::lemma2_to64(); }
}
pub proof fn lemma_pow2i_add(a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures pow2i(a + b) == pow2i(a) * pow2i(b), pow2i(a) > 0, pow2i(b) > 0
    decreases b
{
    lemma_pow2i(a); lemma_pow2i(b); lemma_pow2i(a + b);
    if b > 0 {
        lemma_pow2i_add(a, b - 1);
        assert(pow2i(a) * (2 * pow2i(b - 1)) == 2 * (pow2i(a) * pow2i(b - 1))) by(nonlinear_arith);
    }
}
pub proof fn lemma_pow2i_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures 0 < pow2i(a) <= pow2i(b)
    decreases b
{ lemma_pow2i(a); if a < b { lemma_pow2i_mono(a, b - 1); lemma_pow2i(b - 1); } }
pub proof fn lemma_pow2i_small()
    ensures pow2i(0) == 1, pow2i(1) == 2, pow2i(2) == 4, pow2i(3) == 8, pow2i(4) == 16, pow2i(5) == 32, pow2i(6) == 64, pow2i(8) == 256, pow2i(7) == 128, pow2i(13) == 8192,
        pow2i(30) == 0x4000_0000, pow2i(32) == 0x1_0000_0000, pow2i(40) == 0x100_0000_0000, pow2i(63) == 0x8000_0000_0000_0000
{
    assert(pow2i(0) == 1 && pow2i(1) == 2 && pow2i(2) == 4 && pow2i(3) == 8 && pow2i(4) == 16 && pow2i(5) == 32 && pow2i(6) == 64 && pow2i(8) == 256 && pow2i(7) == 128 && pow2i(13) == 8192
        && pow2i(30) == 0x4000_0000 && pow2i(32) == 0x1_0000_0000 && pow2i(40) == 0x100_0000_0000 && pow2i(63) == 0x8000_0000_0000_0000) by(compute_only);
}
pub proof fn lemma_bits_len(n: int, v: int)
    requires 0 <= n
    ensures bits(n, v).len() == n
    decreases n
{ if n > 0 { lemma_bits_len(n - 1, v / 2); } }
// a * 2^m + b: the bits of a, then those of b
pub proof fn lemma_bits_join(n: int, m: int, a: int, b: int)
    requires 0 <= n, 0 <= m, 0 <= a, 0 <= b < pow2i(m)
    ensures bits(n + m, a * pow2i(m) + b) == bits(n, a) + bits(m, b)
    decreases m
{
    if m == 0 { assert(a * pow2i(0) + b == a) by(nonlinear_arith) requires pow2i(0) == 1, b == 0; assert(bits(n, a) + bits(0, b) =~= bits(n, a)); }
    else {
        lemma_pow2i(m - 1);
        let v = a * pow2i(m) + b;
        let q = a * pow2i(m - 1);
        assert(a * pow2i(m) == 2 * q) by(nonlinear_arith) requires pow2i(m) == 2 * pow2i(m - 1), q == a * pow2i(m - 1);
        assert(v / 2 == q + b / 2);
        assert(v % 2 == b % 2);
        assert(q >= 0) by(nonlinear_arith) requires a >= 0, pow2i(m - 1) > 0, q == a * pow2i(m - 1);
        lemma_bits_join(n, m - 1, a, b / 2);
        assert(bits(n + m, v) =~= bits(n, a) + bits(m, b));
    }
}
pub proof fn lemma_bits_split(n: int, m: int, v: int)
    requires 0 <= n, 0 <= m, 0 <= v
    ensures bits(n + m, v) == bits(n, v / pow2i(m)) + bits(m, v % pow2i(m)), 0 <= v % pow2i(m) < pow2i(m), 0 <= v / pow2i(m)
{
    lemma_pow2i(m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, pow2i(m));
    assert(v / pow2i(m) * pow2i(m) == pow2i(m) * (v / pow2i(m))) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(v, pow2i(m));
    lemma_bits_join(n, m, v / pow2i(m), v % pow2i(m));
}
pub proof fn lemma_bits_inj(n: int, a: int, b: int)
    requires 0 <= n, 0 <= a < pow2i(n), 0 <= b < pow2i(n), bits(n, a) == bits(n, b)
    ensures a == b
    decreases n
{
    if n > 0 {
        lemma_pow2i(n - 1);
        let (x, y) = (bits(n, a), bits(n, b));
        assert(x.last() == (a % 2 == 1) && y.last() == (b % 2 == 1));
        assert(x.drop_last() =~= bits(n - 1, a / 2) && y.drop_last() =~= bits(n - 1, b / 2));
        lemma_bits_inj(n - 1, a / 2, b / 2);
    }
}
pub proof fn lemma_bits_ones(n: int)
    requires 0 <= n
    ensures bits(n, pow2i(n) - 1) == ones(n), pow2i(n) > 0
    decreases n
{
    if n > 0 { lemma_pow2i(n - 1); lemma_bits_ones(n - 1); assert((pow2i(n) - 1) / 2 == pow2i(n - 1) - 1); assert(bits(n, pow2i(n) - 1) =~= ones(n)); }
    else { assert(bits(n, pow2i(n) - 1) =~= ones(n)); }
}
pub proof fn lemma_bits_of_push(b: Seq<u8>, x: u8)
    ensures bits_of(b.push(x)) == bits_of(b) + bits(8, x as int)
{ assert(b.push(x).drop_last() =~= b); }
pub proof fn lemma_bits_of_len(b: Seq<u8>)
    ensures bits_of(b).len() == 8 * b.len()
    decreases b.len()
{ if b.len() > 0 { lemma_bits_of_len(b.drop_last()); lemma_bits_len(8, b.last() as int); } }
pub proof fn lemma_bits_of_inj(a: Seq<u8>, b: Seq<u8>)
    requires bits_of(a) == bits_of(b)
    ensures a == b
    decreases a.len()
{
    lemma_bits_of_len(a); lemma_bits_of_len(b);
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        lemma_bits_of_len(x); lemma_bits_of_len(y);
        lemma_bits_len(8, a.last() as int); lemma_bits_len(8, b.last() as int);
        lemma_pow2i_small();
        assert(bits_of(a).skip(8 * x.len() as int) =~= bits(8, a.last() as int));
        assert(bits_of(b).skip(8 * x.len() as int) =~= bits(8, b.last() as int));
        assert(bits_of(a).take(8 * x.len() as int) =~= bits_of(x));
        assert(bits_of(b).take(8 * x.len() as int) =~= bits_of(y));
        lemma_bits_inj(8, a.last() as int, b.last() as int);
        lemma_bits_of_inj(x, y);
        assert(a =~= x.push(a.last()) && b =~= y.push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lemma_enc_bits_cat(a: Seq<u8>, b: Seq<u8>)
    ensures enc_bits(a + b) == enc_bits(a) + enc_bits(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(enc_bits(a) + enc_bits(b) =~= enc_bits(b)); }
    else {
        lemma_enc_bits_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(enc_bits(a + b) =~= enc_bits(a) + enc_bits(b));
    }
}
pub proof fn lemma_enc_bits_one(c: u8)
    ensures enc_bits(seq![c]) == code(c as int)
{ assert(seq![c].skip(1) =~= Seq::<u8>::empty()); assert(enc_bits(seq![c].skip(1)) =~= Seq::<bool>::empty()); assert(enc_bits(seq![c]) =~= code(c as int)); }
pub proof fn lemma_enc_bits_push(a: Seq<u8>, c: u8)
    ensures enc_bits(a.push(c)) == enc_bits(a) + code(c as int)
{ lemma_enc_bits_cat(a, seq![c]); lemma_enc_bits_one(c); assert(a + seq![c] =~= a.push(c)); }

// ------------------------------------------------------- the code
pub open spec fn code_ok(c: int) -> bool { 5 <= clen(c) <= 30 && 0 <= cval(c) < pow2i(clen(c)) }
pub open spec fn codes_ok(n: int) -> bool decreases n { n <= 0 || (code_ok(n - 1) && codes_ok(n - 1)) }
// Codes, padded to 30 bits, are disjoint intervals [lo, hi); `sorted` lists them in order.
pub open spec fn lo(c: int) -> int { cval(c) * pow2i(30 - clen(c)) }
pub open spec fn hi(c: int) -> int { (cval(c) + 1) * pow2i(30 - clen(c)) }
pub open spec fn sorted_ok(n: int) -> bool decreases n { n <= 1 || (hi(sorted(n - 2)) <= lo(sorted(n - 1)) && sorted_ok(n - 1)) }
pub open spec fn rank_ok(n: int) -> bool decreases n { n <= 0 || (0 <= rank(n - 1) <= 256 && sorted(rank(n - 1)) == n - 1 && 0 <= sorted(n - 1) <= 256 && rank_ok(n - 1)) }
proof fn lemma_codes_ok_at(n: int, c: int) requires codes_ok(n), 0 <= c < n ensures code_ok(c) decreases n { if c < n - 1 { lemma_codes_ok_at(n - 1, c); } }
proof fn lemma_rank_ok_at(n: int, c: int) requires rank_ok(n), 0 <= c < n ensures 0 <= rank(c) <= 256, sorted(rank(c)) == c, 0 <= sorted(c) <= 256 decreases n { if c < n - 1 { lemma_rank_ok_at(n - 1, c); } }
proof fn lemma_sorted_ok_at(n: int, i: int) requires sorted_ok(n), 0 <= i < n - 1 ensures hi(sorted(i)) <= lo(sorted(i + 1)) decreases n { if i < n - 2 { lemma_sorted_ok_at(n - 1, i); } }
proof fn lemma_sorted(i: int, j: int)
    requires 0 <= i < j <= 256
    ensures hi(sorted(i)) <= lo(sorted(j))
    decreases j
{
    hcode::lemma_facts();
    lemma_sorted_ok_at(257, j - 1);
    if i < j - 1 {
        lemma_sorted(i, j - 1);
        let c = sorted(j - 1);
        lemma_rank_ok_at(257, j - 1); lemma_code(c); lemma_pow2i(30 - clen(c));
        assert(lo(c) <= hi(c)) by(nonlinear_arith) requires pow2i(30 - clen(c)) > 0, lo(c) == cval(c) * pow2i(30 - clen(c)), hi(c) == (cval(c) + 1) * pow2i(30 - clen(c));
    }
}
pub proof fn lemma_code(c: int)
    requires 0 <= c <= 256
    ensures code_ok(c), code(c).len() == clen(c)
{ hcode::lemma_facts(); lemma_codes_ok_at(257, c); lemma_bits_len(clen(c), cval(c)); }
proof fn lemma_apart(c: int, d: int)
    requires 0 <= c <= 256, 0 <= d <= 256, c != d
    ensures hi(c) <= lo(d) || hi(d) <= lo(c)
{
    hcode::lemma_facts(); lemma_rank_ok_at(257, c); lemma_rank_ok_at(257, d);
    if rank(c) < rank(d) { lemma_sorted(rank(c), rank(d)); } else { lemma_sorted(rank(d), rank(c)); }
}
pub proof fn lemma_eos() ensures code(256) == ones(30), clen(256) == 30
{ hcode::lemma_facts(); lemma_pow2i_small(); lemma_bits_ones(30); }
pub open spec fn starts(s: Seq<bool>, p: Seq<bool>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
// No code is the beginning of another one.
pub proof fn lemma_prefix_free(c: int, d: int)
    requires 0 <= c <= 256, 0 <= d <= 256, starts(code(d), code(c))
    ensures c == d
{
    lemma_code(c); lemma_code(d);
    if c != d {
        lemma_apart(c, d);
        let m = clen(d) - clen(c);
        lemma_bits_split(clen(c), m, cval(d));
        lemma_bits_len(clen(c), cval(d) / pow2i(m));
        assert(code(d).take(clen(c)) =~= bits(clen(c), cval(d) / pow2i(m)));
        lemma_pow2i_add(clen(c), m);
        assert(cval(d) / pow2i(m) < pow2i(clen(c))) by {
            let (v, p, q) = (cval(d), pow2i(clen(c)), pow2i(m));
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, q);
            assert(v / q < p) by(nonlinear_arith) requires v < p * q, q > 0, v == q * (v / q) + v % q, 0 <= v % q;
        }
        lemma_bits_inj(clen(c), cval(d) / pow2i(m), cval(c));
        lemma_pow2i_add(m, 30 - clen(d));
        let (v, w, p, q) = (cval(c), cval(d), pow2i(m), pow2i(30 - clen(d)));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, p);
        assert(v * (p * q) <= w * q < (v + 1) * (p * q) && w * q < (w + 1) * q && (w + 1) * q > v * (p * q)) by(nonlinear_arith)
            requires w == p * v + w % p, 0 <= w % p < p, q > 0, p > 0;
    }
}
// No code (of an octet) is the beginning of r.
pub open spec fn stuck(r: Seq<bool>) -> bool { forall|c: int| 0 <= c < 256 ==> !#[trigger] starts(r, code(c)) }
pub proof fn lemma_stuck_ones(k: int)
    requires 0 <= k <= 29
    ensures stuck(ones(k))
{
    lemma_eos();
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(ones(k), code(c)) by {
        lemma_code(c);
        if starts(ones(k), code(c)) { assert(ones(30).take(clen(c)) =~= ones(k).take(clen(c))); lemma_prefix_free(c, 256); }
    }
}
pub proof fn lemma_stuck_eos(r: Seq<bool>)
    ensures stuck(code(256) + r)
{
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(code(256) + r, code(c)) by {
        lemma_code(c); lemma_code(256);
        let t = code(256) + r;
        if starts(t, code(c)) {
            if clen(c) <= clen(256) { assert(t.take(clen(c)) =~= code(256).take(clen(c))); lemma_prefix_free(c, 256); }
            else { assert(code(c).take(clen(256)) =~= t.take(clen(c)).take(clen(256))); assert(t.take(clen(c)).take(clen(256)) =~= code(256)); lemma_prefix_free(256, c); }
        }
    }
}
// A proper beginning of a code is stuck.
pub proof fn lemma_stuck_proper(w: int, r: Seq<bool>)
    requires 0 <= w <= 256, r.len() < clen(w), starts(code(w), r)
    ensures stuck(r)
{
    lemma_code(w);
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(r, code(c)) by {
        lemma_code(c);
        if starts(r, code(c)) { assert(code(w).take(clen(c)) =~= r.take(clen(c))); lemma_prefix_free(c, w); }
    }
}
// Splitting into codes and a stuck rest can be done in one way only.
pub proof fn lemma_unique(a: Seq<u8>, r: Seq<bool>, b: Seq<u8>, q: Seq<bool>)
    requires enc_bits(a) + r == enc_bits(b) + q, stuck(r), stuck(q)
    ensures a == b, r == q
    decreases a.len()
{
    let t = enc_bits(a) + r;
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); assert(t =~= r && t =~= q); }
    else if a.len() == 0 {
        let c = b[0] as int; lemma_code(c);
        assert(t =~= r); assert(t.take(clen(c)) =~= code(c)); assert(starts(r, code(c)));
    } else if b.len() == 0 {
        let c = a[0] as int; lemma_code(c);
        assert(t =~= q); assert(t.take(clen(c)) =~= code(c)); assert(starts(q, code(c)));
    } else {
        let (c, d) = (a[0] as int, b[0] as int);
        lemma_code(c); lemma_code(d);
        assert(t.take(clen(c)) =~= code(c)); assert(t.take(clen(d)) =~= code(d));
        if clen(c) <= clen(d) { assert(code(d).take(clen(c)) =~= code(c)); lemma_prefix_free(c, d); }
        else { assert(code(c).take(clen(d)) =~= code(d)); lemma_prefix_free(d, c); }
        assert(t.skip(clen(c)) =~= enc_bits(a.skip(1)) + r);
        assert(t.skip(clen(c)) =~= enc_bits(b.skip(1)) + q);
        lemma_unique(a.skip(1), r, b.skip(1), q);
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    }
}
// b cannot be followed by anything to become an encoding: it holds the code of EOS.
pub open spec fn dead(b: Seq<bool>) -> bool { exists|s: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(s) + (code(256) + r)) }
pub proof fn lemma_dead_more(s: Seq<u8>, b: Seq<bool>, x: Seq<bool>)
    requires dead(b)
    ensures dead(enc_bits(s) + b + x)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + (code(256) + r));
    lemma_enc_bits_cat(s, t);
    assert(enc_bits(s) + b + x =~= enc_bits(s + t) + (code(256) + (r + x)));
}
// b is no encoding: something other than at most seven ones is left over.
pub open spec fn fails(b: Seq<bool>) -> bool {
    exists|s: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(s) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int))
}
pub proof fn lemma_dead_fails(b: Seq<bool>)
    requires dead(b)
    ensures fails(b)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + (code(256) + r));
    lemma_stuck_eos(r); lemma_code(256); lemma_eos();
}
pub proof fn lemma_fails_more(s: Seq<u8>, b: Seq<bool>)
    requires fails(b)
    ensures fails(enc_bits(s) + b)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int));
    lemma_enc_bits_cat(s, t);
    assert(enc_bits(s) + b =~= enc_bits(s + t) + r);
}
pub proof fn lemma_fails(src: Seq<u8>)
    requires fails(bits_of(src))
    ensures forall|s: Seq<u8>| !#[trigger] huff(s, src)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| bits_of(src) == #[trigger] (enc_bits(t) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int));
    assert forall|s: Seq<u8>| !#[trigger] huff(s, src) by {
        if huff(s, src) {
            let k = pad(enc_bits(s).len() as int);
            lemma_stuck_ones(k);
            lemma_unique(s, ones(k), t, r);
        }
    }
}

// ------------------------------------------------------- the encoder
// `b` holds, in its 40 low bits, 40 - left bits that are still to be written, then zeros.
pub open spec fn low40(b: u64) -> int { (b & 0xff_ffff_ffff) as int }
pub open spec fn holds(b: u64, left: int) -> bool { 0 <= left <= 40 && low40(b) % pow2i(left) == 0 }
pub open spec fn pending(b: u64, left: int) -> Seq<bool> { bits(40 - left, low40(b) / pow2i(left)) }
// f is o and then the encoding of s.
pub open spec fn wrote_huff(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>) -> bool { o.len() <= f.len() && f.take(o.len() as int) == o && huff(s, f.skip(o.len() as int)) }
// The same for what is written so far.
pub open spec fn writing(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: int) -> bool {
    &&& o.len() <= f.len() && f.take(o.len() as int) == o
    &&& holds(b, left)
    &&& bits_of(f.skip(o.len() as int)) + pending(b, left) == enc_bits(s)
}
pub proof fn lemma_pow2i_u64(n: u64)
    requires n < 64
    ensures pow2i(n as int) == (1u64 << n) as int, (1u64 << n) >= 1
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
    if n < 63 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(n as nat, 63); }
    vstd::bits::lemma_u64_shl_is_mul(1, n);
}
proof fn lemma_mask(n: nat)
    ensures vstd::bits::low_bits_mask(n) as int == pow2i(n as int) - 1
    decreases n
{
    vstd::bits::lemma_low_bits_mask_values();
    lemma_pow2i(n as int);
    if n > 0 { lemma_mask((n - 1) as nat); lemma_pow2i(n - 1); vstd::bits::lemma_low_bits_mask_unfold(n); }
}
pub proof fn lemma_holds(b: u64, left: u64)
    requires left <= 40
    ensures holds(b, left as int) <==> (b & 0xff_ffff_ffff) & sub(1u64 << left, 1) == 0, low40(b) < 0x100_0000_0000, 1u64 << left >= 1
{
    lemma_pow2i_u64(left);
    let w = b & 0xff_ffff_ffff;
    assert(w < 0x100_0000_0000) by(bit_vector) requires w == b & 0xff_ffff_ffff;
    let m = 1u64 << left;
    vstd::bits::lemma_u64_low_bits_mask_is_mod(w, left as nat);
    vstd::bits::lemma_low_bits_mask_values();
    lemma_mask(left as nat); lemma_pow2i(left as int);
    assert(vstd::bits::low_bits_mask(left as nat) as u64 == sub(m, 1));
    assert(pow2(left as nat) as u64 == m);
    assert((w & sub(m, 1)) as int == low40(b) % pow2i(left as int));
}
pub proof fn lemma_start(b: u64, o: Seq<u8>)
    requires b == 0
    ensures writing(Seq::empty(), o, o, b, 40)
{
    assert(0u64 & 0xff_ffff_ffff == 0) by(bit_vector);
    lemma_pow2i_small();
    assert(o.take(o.len() as int) =~= o);
    assert(o.skip(o.len() as int) =~= Seq::<u8>::empty());
    assert(bits_of(o.skip(o.len() as int)) + pending(b, 40) =~= enc_bits(Seq::<u8>::empty()));
}
// One more code.
pub proof fn lemma_add(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, c: u8, len: u8, val: u32, nb: u64)
    requires writing(s, o, f, b, left as int), len as int == clen(c as int), val as int == cval(c as int), left >= len,
        nb == b | ((val as u64) << ((left - len) as u8))
    ensures writing(s.push(c), o, f, nb, left - len), 5 <= len <= 30
{
    lemma_code(c as int);
    let (l, r, v) = (left as u64, (left - len) as u64, val as u64);
    lemma_holds(b, l); lemma_pow2i(r as int); lemma_pow2i_u64(l); lemma_pow2i_u64(r); lemma_pow2i_u64(len as u64);
    lemma_pow2i_add(len as int, left - len);
    let x = v << r;
    assert(v * pow2i(r as int) < pow2i(l as int)) by(nonlinear_arith) requires v + 1 <= pow2i(len as int), pow2i(r as int) > 0, pow2i(l as int) == pow2i(len as int) * pow2i(r as int);
    lemma_pow2i_mono(l as int, 40); lemma_pow2i_small();
    assert(v * pow2i(r as int) <= u64::MAX);
    vstd::bits::lemma_u64_shl_is_mul(v, r);
    assert(x as int == v * pow2i(r as int));
    let m = 1u64 << l;
    assert(x < m);
    let w = b & 0xff_ffff_ffff;
    assert((b | x) & 0xff_ffff_ffff == add(w, x) && w <= 0xff_ffff_ffff) by(bit_vector) requires x < m, m == 1u64 << l, l <= 40, w == b & 0xff_ffff_ffff, w & sub(m, 1) == 0;
    assert(nb == b | x) by { assert(v << ((left - len) as u8) == v << r) by(bit_vector) requires r == (left - len) as u8 as u64, left >= len; }
    let p = low40(b) / pow2i(l as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pow2i(l as int));
    let np = p * pow2i(len as int) + v;
    assert(low40(nb) == np * pow2i(r as int)) by(nonlinear_arith)
        requires low40(nb) == pow2i(l as int) * p + v * pow2i(r as int), pow2i(l as int) == pow2i(len as int) * pow2i(r as int), np == p * pow2i(len as int) + v;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(np, pow2i(r as int));
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(np, pow2i(r as int));
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pow2i(l as int));
    lemma_bits_join(40 - left, len as int, p, v as int);
    lemma_enc_bits_push(s, c);
    let g = bits_of(f.skip(o.len() as int));
    assert(g + pending(nb, left - len) =~= (g + pending(b, left as int)) + code(c as int));
}
// A whole octet goes out.
pub proof fn lemma_drain(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, byte: u8, nb: u64)
    requires writing(s, o, f, b, left as int), left <= 32, byte == (b >> 32) as u8, nb == b << 8
    ensures writing(s, o, f.push(byte), nb, left + 8)
{
    let w = b & 0xff_ffff_ffff;
    let l = left as u64;
    assert((b >> 32) as u8 as u64 == w / 0x1_0000_0000 && (b << 8) & 0xff_ffff_ffff == mul(w % 0x1_0000_0000, 256) && w % 0x1_0000_0000 < 0x1_0000_0000)
        by(bit_vector) requires w == b & 0xff_ffff_ffff;
    lemma_pow2i_small();
    lemma_pow2i_add(left as int, 32 - left); lemma_pow2i_add(left as int, 8);
    let (pl, pm) = (pow2i(left as int), pow2i(32 - left));
    let p = low40(b) / pl;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, pm);
    let (q, r) = (p / pm, p % pm);
    assert(0 <= r < pm);
    assert(low40(b) == q * 0x1_0000_0000 + r * pl && 0 <= r * pl < 0x1_0000_0000) by(nonlinear_arith)
        requires low40(b) == pl * p, p == pm * q + r, 0 <= r < pm, pl * pm == 0x1_0000_0000, pl > 0;
    assert(low40(b) / 0x1_0000_0000 == q && low40(b) % 0x1_0000_0000 == r * pl);
    assert(low40(nb) == r * (pl * 256)) by(nonlinear_arith) requires low40(nb) == (r * pl) * 256;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(r, pl * 256);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r, pl * 256);
    lemma_bits_split(8, 32 - left, p);
    assert(pending(b, left as int) == bits(8, byte as int) + pending(nb, left + 8));
    let g = f.skip(o.len() as int);
    assert(f.push(byte).skip(o.len() as int) =~= g.push(byte));
    assert(f.push(byte).take(o.len() as int) =~= f.take(o.len() as int));
    lemma_bits_of_push(g, byte);
    assert(bits_of(g.push(byte)) + pending(nb, left + 8) =~= bits_of(g) + pending(b, left as int));
}
// The last octet is filled with ones.
pub proof fn lemma_fill(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, nb: u64, byte: u8)
    requires writing(s, o, f, b, left as int), 33 <= left <= 39, nb == b | sub(1u64 << left, 1), byte == (nb >> 32) as u8
    ensures wrote_huff(s, o, f.push(byte))
{
    let l = left as u64;
    lemma_holds(b, l); lemma_pow2i_u64(l); lemma_pow2i_small();
    let w = b & 0xff_ffff_ffff;
    let m = 1u64 << l;
    assert(1u64 << left == m) by(bit_vector) requires m == 1u64 << l, l == left as u64;
    assert((nb >> 32) as u8 as u64 == add(w, sub(m, 1)) / 0x1_0000_0000 && add(w, sub(m, 1)) <= 0xff_ffff_ffff && w <= 0xff_ffff_ffff && 1 <= m <= 0x80_0000_0000) by(bit_vector)
        requires nb == b | sub(m, 1), m == 1u64 << l, 33 <= l <= 39, w == b & 0xff_ffff_ffff, w & sub(m, 1) == 0;
    let k = left - 32;
    lemma_pow2i_add(32, k);
    let (pl, pk) = (pow2i(left as int), pow2i(k));
    let p = low40(b) / pl;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pl);
    let e = p * pk + (pk - 1);
    assert(low40(b) + pl - 1 == e * 0x1_0000_0000 + 0xffff_ffff) by(nonlinear_arith)
        requires low40(b) == pl * p, pl == 0x1_0000_0000 * pk, e == p * pk + (pk - 1);
    assert(byte as int == e);
    lemma_bits_ones(k);
    lemma_bits_join(40 - left, k, p, pk - 1);
    let g = f.skip(o.len() as int);
    assert(f.push(byte).skip(o.len() as int) =~= g.push(byte));
    assert(f.push(byte).take(o.len() as int) =~= f.take(o.len() as int));
    lemma_bits_of_push(g, byte);
    lemma_bits_of_len(g);
    lemma_bits_len(40 - left, p);
    assert(enc_bits(s).len() == 8 * g.len() + (40 - left));
    assert(pad(enc_bits(s).len() as int) == k);
    assert(bits_of(g.push(byte)) =~= enc_bits(s) + ones(k));
}
pub proof fn lemma_full(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64)
    requires writing(s, o, f, b, 40)
    ensures wrote_huff(s, o, f)
{
    let g = f.skip(o.len() as int);
    lemma_bits_of_len(g);
    assert(bits_of(g) + pending(b, 40) =~= bits_of(g));
    assert(bits_of(g) =~= enc_bits(s) + ones(0));
}
// ------------------------------------------------------- the decoder
// f is o and then a string whose codes, and then b1, are b0.
pub open spec fn gave(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>) -> bool {
    o.len() <= f.len() && f.take(o.len() as int) == o && b0 == enc_bits(f.skip(o.len() as int)) + b1
}
pub proof fn lemma_gave_none(o: Seq<u8>, b: Seq<bool>)
    ensures gave(o, o, b, b)
{ assert(o.take(o.len() as int) =~= o); assert(o.skip(o.len() as int) =~= Seq::<u8>::empty()); assert(enc_bits(Seq::<u8>::empty()) + b =~= b); }
pub proof fn lemma_prefix_trans(o: Seq<u8>, d: Seq<u8>)
    requires o.len() <= d.len(), d.take(o.len() as int) == o
    ensures forall|g: Seq<u8>| d.len() <= g.len() && #[trigger] g.take(d.len() as int) == d ==> g.take(o.len() as int) == o
{
    assert forall|g: Seq<u8>| d.len() <= g.len() && #[trigger] g.take(d.len() as int) == d implies g.take(o.len() as int) == o by {
        assert(g.take(d.len() as int).take(o.len() as int) =~= g.take(o.len() as int));
    }
}
pub proof fn lemma_gave_push(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, c: u8, b2: Seq<bool>)
    requires gave(o, f, b0, b1), b1 == code(c as int) + b2
    ensures gave(o, f.push(c), b0, b2)
{
    let n = o.len() as int;
    assert(f.push(c).take(n) =~= f.take(n)); assert(f.push(c).skip(n) =~= f.skip(n).push(c));
    lemma_enc_bits_push(f.skip(n), c);
    assert(enc_bits(f.skip(n)) + (code(c as int) + b2) =~= enc_bits(f.skip(n)) + code(c as int) + b2);
}
pub proof fn lemma_gave_cat(o: Seq<u8>, f: Seq<u8>, g: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, x: Seq<bool>, b2: Seq<bool>)
    requires gave(o, f, b0, b1), gave(f, g, b1 + x, b2)
    ensures gave(o, g, b0 + x, b2)
{
    let n = o.len() as int; let m = f.len() as int;
    assert(g.take(n) =~= g.take(m).take(n));
    assert(g.skip(n) =~= g.take(m).skip(n) + g.skip(m));
    assert(g.take(m).skip(n) =~= f.skip(n));
    lemma_enc_bits_cat(f.skip(n), g.skip(m));
    assert(b0 + x =~= enc_bits(f.skip(n)) + (b1 + x));
    assert(enc_bits(f.skip(n)) + (enc_bits(g.skip(m)) + b2) =~= enc_bits(g.skip(n)) + b2);
}
pub proof fn lemma_gave_dead(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, x: Seq<bool>)
    requires gave(o, f, b0, b1), dead(b1)
    ensures dead(b0 + x)
{ lemma_dead_more(f.skip(o.len() as int), b1, x); }
// The bits read but not yet given as a symbol.
pub open spec fn kept(tail_size: int, tail: int, buf_size: int, buf: int) -> Seq<bool> { bits(tail_size, tail) + bits(buf_size, buf) }
pub open spec fn at_row(speed: int, id: int, tail_size: int, tail: int) -> bool {
    1 <= speed <= 5 && 0 <= id < rows(speed) && path(speed, id).3 && tail_size == path(speed, id).0 && tail == path(speed, id).1
}
pub open spec fn take_key(speed: int, bs: int, b: int) -> int { b / pow2i(bs - speed) }
pub broadcast proof fn lemma_shr(x: usize, n: usize)
    requires n < 64
    ensures #[trigger] (x >> n) == x as int / pow2i(n as int), pow2i(n as int) > 0
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::bits::lemma_usize_shr_is_div(x, n);
}
pub broadcast proof fn lemma_shl(x: usize, n: usize)
    requires n < 64, x * pow2i(n as int) <= usize::MAX
    ensures #[trigger] (x << n) == x * pow2i(n as int)
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::bits::lemma_usize_shl_is_mul(x, n);
}
pub proof fn lemma_or(x: usize, n: usize, y: usize)
    requires n < 64, x * pow2i(n as int) <= usize::MAX, y < pow2i(n as int)
    ensures ((x << n) | y) == x * pow2i(n as int) + y
{
    lemma_shl(x, n);
    lemma_pow2i_usize(n);
    let m = 1usize << n;
    let z = x << n;
    assert(z & sub(m, 1) == 0) by(bit_vector) requires m == 1usize << n, z == x << n, n < 64;
    assert(z | y == add(z, y) && y <= sub(usize::MAX, z)) by(bit_vector) requires z & sub(m, 1) == 0, y < m, m == 1usize << n, n < 64;
    assert(z + y <= usize::MAX);
    assert(add(z, y) == z + y);
}
pub proof fn lemma_pow2i_usize(n: usize)
    requires n < 64
    ensures pow2i(n as int) == (1usize << n) as int, (1usize << n) >= 1
{
    lemma_pow2i_u64(n as u64);
    assert((1u64 << (n as u64)) as usize == 1usize << n) by(bit_vector) requires n < 64;
}
pub proof fn lemma_low_mask(x: usize, n: usize)
    requires n < 64
    ensures (x & ((1usize << n) - 1) as usize) == x as int % pow2i(n as int), (1usize << n) >= 1
{
    lemma_pow2i_usize(n);
    let m = 1usize << n;
    lemma_mask(n as nat); lemma_pow2i(n as int);
    vstd::bits::lemma_usize_low_bits_mask_is_mod(x, n as nat);
}
// What a step of the decoder does with its next `speed` bits.
pub proof fn lemma_key_symbol(speed: int, id: int, bs: int, b: int, c: int, l: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, speed <= bs, 0 <= b < pow2i(bs),
        ent(speed, id, take_key(speed, bs, b)).1 == Some(c as u16), ent(speed, id, take_key(speed, bs, b)).2 == l as u8, 0 <= c <= u16::MAX, 0 <= l <= u8::MAX
    ensures 0 <= c <= 256, 0 <= l < speed,
        kept(path(speed, id).0, path(speed, id).1, bs, b) == code(c) + bits(bs - speed + l, b % pow2i(bs - speed + l)),
        clen(c) == path(speed, id).0 + speed - l,
        b - take_key(speed, bs, b) / pow2i(l) * pow2i(bs - speed + l) == b % pow2i(bs - speed + l), pow2i(bs - speed + l) > 0
{
    let m = bs - speed;
    let k = take_key(speed, bs, b);
    lemma_key(speed, bs, b);
    lemma_table(speed, id, k);
    let p = path(speed, id);
    lemma_pow2i_add(m, l); lemma_pow2i(m); lemma_pow2i(l);
    vstd::arithmetic::div_mod::lemma_div_denominator(b, pow2i(m), pow2i(l));
    assert(k / pow2i(l) == b / pow2i(m + l));
    lemma_bits_split(speed - l, m + l, b);
    lemma_pow2i(m + l);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m + l));
    assert(k / pow2i(l) * pow2i(m + l) == pow2i(m + l) * (b / pow2i(m + l))) by(nonlinear_arith) requires k / pow2i(l) == b / pow2i(m + l);
    let top = b / pow2i(m + l);
    lemma_pow2i_add(speed - l, m + l);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, pow2i(m + l));
    assert(top < pow2i(speed - l)) by(nonlinear_arith) requires b < pow2i(speed - l) * pow2i(m + l), b == pow2i(m + l) * top + b % pow2i(m + l), 0 <= b % pow2i(m + l), pow2i(m + l) > 0;
    lemma_bits_join(p.0, speed - l, p.1, top);
    assert(kept(p.0, p.1, bs, b) =~= code(c) + bits(m + l, b % pow2i(m + l)));
}
pub proof fn lemma_key_row(speed: int, id: int, bs: int, b: int, j: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, speed <= bs, 0 <= b < pow2i(bs), 0 <= j <= u8::MAX,
        ent(speed, id, take_key(speed, bs, b)).1 is None, ent(speed, id, take_key(speed, bs, b)).0 == Some(j as u8)
    ensures
        ent(speed, id, take_key(speed, bs, b)).2 == 0,
        at_row(speed, j, path(speed, id).0 + speed, path(speed, id).1 * pow2i(speed) + take_key(speed, bs, b)),
        kept(path(speed, id).0, path(speed, id).1, bs, b) == kept(path(speed, j).0, path(speed, j).1, bs - speed, b % pow2i(bs - speed)),
        b - take_key(speed, bs, b) * pow2i(bs - speed) == b % pow2i(bs - speed), pow2i(bs - speed) > 0
{
    let m = bs - speed;
    let k = take_key(speed, bs, b);
    lemma_key(speed, bs, b);
    lemma_table(speed, id, k);
    let p = path(speed, id);
    lemma_bits_split(speed, m, b);
    lemma_pow2i(m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m));
    assert(k * pow2i(m) == pow2i(m) * (b / pow2i(m))) by(nonlinear_arith) requires k == b / pow2i(m);
    lemma_bits_join(p.0, speed, p.1, k);
    assert(kept(p.0, p.1, bs, b) =~= kept(path(speed, j).0, path(speed, j).1, m, b % pow2i(m)));
}
pub proof fn lemma_key(speed: int, bs: int, b: int)
    requires 1 <= speed <= bs, 0 <= b < pow2i(bs)
    ensures 0 <= take_key(speed, bs, b) < pow2i(speed), 0 < pow2i(bs - speed)
{
    let q = pow2i(bs - speed);
    lemma_pow2i(bs - speed); lemma_pow2i_add(speed, bs - speed);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, q);
    assert(b / q < pow2i(speed)) by(nonlinear_arith) requires b < pow2i(speed) * q, b == q * (b / q) + b % q, 0 <= b % q, q > 0;
}
pub proof fn lemma_key_all(sp: int, k: int)
    ensures take_key(sp, sp, k) == k
{ assert(sp - sp == 0); lemma_pow2i_small(); }
pub proof fn lemma_tail(n: int, v: int, m: int, w: int)
    requires 0 <= n < 30, 0 <= v < pow2i(n), 0 <= m <= 5, 0 <= w < pow2i(m)
    ensures 0 <= v * pow2i(m) < 0x10_0000_0000, 0 <= v * pow2i(m) + w < pow2i(n + m), bits(n + m, v * pow2i(m) + w) == bits(n, v) + bits(m, w)
{
    lemma_bits_join(n, m, v, w); lemma_pow2i_add(n, m); lemma_pow2i_mono(n, 30); lemma_pow2i_mono(m, 5); lemma_pow2i_small();
    assert(0 <= v * pow2i(m) < 0x10_0000_0000) by(nonlinear_arith) requires 0 <= v < 0x4000_0000, 0 < pow2i(m) <= 32;
    assert(v * pow2i(m) + w < pow2i(n + m)) by(nonlinear_arith) requires v + 1 <= pow2i(n), w < pow2i(m), pow2i(n + m) == pow2i(n) * pow2i(m), pow2i(m) > 0;
}
pub proof fn lemma_entry(speed: int, id: int, k: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, 0 <= k < pow2i(speed)
    ensures match ent(speed, id, k) { (_, Some(c), l) => c <= 256 && l < speed, (Some(j), None, l) => l == 0 && j < rows(speed), _ => false }, path(speed, id).0 < 30, 0 <= path(speed, id).0, 0 <= path(speed, id).1 < pow2i(path(speed, id).0)
{ lemma_table(speed, id, k); lemma_code(path(speed, id).2); }

pub proof fn lemma_shifts(sp: int, bs: int, b: int, l: int, tl: int, tsz: int)
    requires 1 <= sp <= 5, sp <= bs <= 16, 0 <= b < pow2i(bs), 0 <= l < sp, 0 <= tsz < 30, 0 <= tl < pow2i(tsz)
    ensures
        b < 0x1_0000, pow2i(sp) <= 32, 0 <= take_key(sp, bs, b) / pow2i(l) < pow2i(sp - l), take_key(sp, bs, b) / pow2i(l) * pow2i(bs - sp + l) <= b,
        0 <= tl * pow2i(sp - l) < 0x10_0000_0000, 0 <= b % pow2i(bs - sp + l) < pow2i(bs - sp + l), take_key(sp, bs, b) / pow2i(0) == take_key(sp, bs, b)
{
    lemma_pow2i_small(); lemma_pow2i_mono(bs, 16); lemma_pow2i_mono(sp, 5); lemma_pow2i_add(8, 8);
    lemma_key(sp, bs, b);
    let k = take_key(sp, bs, b);
    let (m, q) = (bs - sp, pow2i(l));
    lemma_pow2i_add(sp - l, l); lemma_pow2i_add(m, l); lemma_pow2i(m); lemma_pow2i(m + l);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, q);
    assert(k / q < pow2i(sp - l)) by(nonlinear_arith) requires k < pow2i(sp - l) * q, k == q * (k / q) + k % q, 0 <= k % q, q > 0;
    vstd::arithmetic::div_mod::lemma_div_denominator(b, pow2i(m), q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m + l));
    assert(k / q * pow2i(m + l) <= b) by(nonlinear_arith) requires k / q == b / pow2i(m + l), b == pow2i(m + l) * (b / pow2i(m + l)) + b % pow2i(m + l), 0 <= b % pow2i(m + l);
    lemma_pow2i_mono(tsz, 30); lemma_pow2i_mono(sp - l, 5);
    assert(0 <= tl * pow2i(sp - l) < 0x10_0000_0000) by(nonlinear_arith) requires 0 <= tl < 0x4000_0000, 0 < pow2i(sp - l) <= 32;
    assert(k / pow2i(0) == k);
}
pub proof fn lemma_gave_eos(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>)
    requires gave(o, f, b0, b1)
    ensures forall|x: Seq<bool>| b1 == #[trigger] (code(256) + x) ==> dead(b0)
{
    assert forall|x: Seq<bool>| b1 == #[trigger] (code(256) + x) implies dead(b0) by {
        let s = f.skip(o.len() as int);
        assert(b0 == enc_bits(s) + (code(256) + x));
    }
}
pub proof fn lemma_row_proper(p: (int, int, int, bool))
    requires row_ok(p)
    ensures starts(code(p.2), bits(p.0, p.1)), bits(p.0, p.1).len() == p.0
{
    lemma_code(p.2);
    lemma_bits_split(p.0, clen(p.2) - p.0, cval(p.2));
    lemma_bits_len(p.0, p.1);
    assert(code(p.2).take(p.0) =~= bits(p.0, p.1));
}
// The last bits, fewer than a key: if they hold no whole code they hold a proper beginning of one.
pub proof fn lemma_final_stuck(sp: int, id: int, bs: int, b: int)
    requires 1 <= sp <= 5, 0 <= id < rows(sp), path(sp, id).3, 0 <= bs < sp, 0 <= b < pow2i(bs),
        bs > 0 && ent(sp, id, b * pow2i(sp - bs)).1 is Some ==> ent(sp, id, b * pow2i(sp - bs)).2 < sp - bs
    ensures stuck(kept(path(sp, id).0, path(sp, id).1, bs, b)), path(sp, id).0 < 30
{
    let p = path(sp, id);
    let r = kept(p.0, p.1, bs, b);
    lemma_bits_len(bs, b);
    lemma_pow2i_mono(0, sp);
    lemma_table(sp, id, 0); lemma_row_proper(p); lemma_code(p.2);
    if bs == 0 {
        assert(r =~= bits(p.0, p.1));
        lemma_stuck_proper(p.2, r);
    } else {
        let sh = sp - bs;
        let k = b * pow2i(sh);
        lemma_pow2i_add(bs, sh);
        assert(0 <= k < pow2i(sp)) by(nonlinear_arith) requires k == b * pow2i(sh), 0 <= b < pow2i(bs), pow2i(sh) > 0, pow2i(sp) == pow2i(bs) * pow2i(sh);
        lemma_pow2i_small();
        lemma_key_all(sp, k);
        lemma_entry(sp, id, k);
        lemma_table(sp, id, k);
        lemma_bits_join(bs, sh, b, 0);
        let e = ent(sp, id, k);
        let full = kept(p.0, p.1, sp, k);
        assert(full =~= r + bits(sh, 0));
        lemma_bits_len(sh, 0);
        assert(full.take(r.len() as int) =~= r);
        match e.1 {
            Some(c) => {
                lemma_key_symbol(sp, id, sp, k, c as int, e.2 as int);
                lemma_code(c as int);
                assert(full.take(clen(c as int)) =~= code(c as int));
                assert(code(c as int).take(r.len() as int) =~= r);
                lemma_stuck_proper(c as int, r);
            },
            None => {
                let j = e.0.unwrap() as int;
                let q = path(sp, j);
                lemma_key_row(sp, id, sp, k, j);
                lemma_table(sp, j, 0); lemma_row_proper(q); lemma_code(q.2);
                lemma_bits_len(0, k % pow2i(0));
                assert(full =~= bits(q.0, q.1));
                assert(code(q.2).take(r.len() as int) =~= full.take(r.len() as int));
                lemma_stuck_proper(q.2, r);
            },
        }
    }
}
pub proof fn lemma_final_symbol(sp: int, tsz: int, tl: int, bs: int, b: int, c: int, l: int, nb: int)
    requires 0 < bs < sp <= 5, 0 <= b < pow2i(bs), 0 <= tsz, sp - bs <= l, 0 <= nb < pow2i(l), 0 <= c <= 256,
        kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(c) + bits(l, nb)
    ensures kept(tsz, tl, bs, b) == code(c) + bits(l - (sp - bs), nb / pow2i(sp - bs)), 0 <= nb / pow2i(sp - bs) < pow2i(l - (sp - bs))
{
    let sh = sp - bs;
    lemma_pow2i(sh);
    lemma_bits_join(bs, sh, b, 0);
    lemma_bits_split(l - sh, sh, nb);
    lemma_bits_len(tsz, tl); lemma_bits_len(bs, b); lemma_bits_len(sh, 0); lemma_code(c); lemma_bits_len(l - sh, nb / pow2i(sh)); lemma_bits_len(sh, nb % pow2i(sh));
    let r = kept(tsz, tl, bs, b);
    let x = code(c) + bits(l - sh, nb / pow2i(sh));
    assert(kept(tsz, tl, sp, b * pow2i(sh)) =~= r + bits(sh, 0));
    assert(code(c) + bits(l, nb) =~= x + bits(sh, nb % pow2i(sh)));
    assert((r + bits(sh, 0)).take(r.len() as int) =~= r);
    assert((x + bits(sh, nb % pow2i(sh))).take(x.len() as int) =~= x);
    lemma_pow2i_add(l - sh, sh);
    let q = pow2i(sh);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nb, q);
    assert(nb / q < pow2i(l - sh)) by(nonlinear_arith) requires nb < pow2i(l - sh) * q, nb == q * (nb / q) + nb % q, 0 <= nb % q, q > 0;
}
pub proof fn lemma_final_eos(sp: int, tsz: int, tl: int, bs: int, b: int, l: int)
    requires 0 < bs < sp <= 5, 0 <= b < pow2i(bs), 0 <= tsz, sp - bs <= l
    ensures forall|nb: int| 0 <= nb < pow2i(l) && kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(256) + #[trigger] bits(l, nb) ==> fails(kept(tsz, tl, bs, b))
{
    assert forall|nb: int| 0 <= nb < pow2i(l) && kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(256) + #[trigger] bits(l, nb) implies fails(kept(tsz, tl, bs, b)) by {
        lemma_final_symbol(sp, tsz, tl, bs, b, 256, l, nb);
        let r = bits(l - (sp - bs), nb / pow2i(sp - bs));
        assert(enc_bits(Seq::<u8>::empty()) + (code(256) + r) =~= code(256) + r);
        lemma_dead_fails(kept(tsz, tl, bs, b));
    }
}
pub proof fn lemma_stuck_short(n: int, v: int)
    requires 0 <= n < 5
    ensures stuck(bits(n, v))
{
    lemma_bits_len(n, v);
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(bits(n, v), code(c)) by { lemma_code(c); }
}
pub proof fn lemma_verdict(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, n: int, v: int)
    requires gave(o, f, b0, bits(n, v)), stuck(bits(n, v)), 0 <= n, 0 <= v < pow2i(n)
    ensures n <= 7 && v == pow2i(n) - 1 ==> gave(o, f, b0, ones(n)), !(n <= 7 && v == pow2i(n) - 1) ==> fails(b0)
{
    lemma_bits_ones(n); lemma_bits_len(n, v);
    if !(n <= 7 && v == pow2i(n) - 1) {
        let r = bits(n, v);
        if r.len() <= 7 && r == ones(r.len() as int) { lemma_bits_inj(n, v, pow2i(n) - 1); }
        assert(b0 == enc_bits(f.skip(o.len() as int)) + r);
    }
}
pub open spec fn num(b: Seq<bool>) -> int decreases b.len() { if b.len() == 0 { 0 } else { 2 * num(b.drop_last()) + if b.last() { 1int } else { 0 } } }
pub proof fn lemma_num(b: Seq<bool>)
    ensures 0 <= num(b) < pow2i(b.len() as int), bits(b.len() as int, num(b)) == b
    decreases b.len()
{
    if b.len() > 0 {
        lemma_num(b.drop_last());
        let v = num(b);
        assert(v / 2 == num(b.drop_last()) && (v % 2 == 1) == b.last());
        assert(bits(b.len() as int, v) =~= b);
    } else { assert(bits(0, 0) =~= b); }
}
pub open spec fn octets(b: Seq<bool>) -> Seq<u8> decreases b.len() { if b.len() < 8 { Seq::empty() } else { octets(b.take(b.len() - 8)).push(num(b.skip(b.len() - 8)) as u8) } }
pub proof fn lemma_octets(b: Seq<bool>)
    requires b.len() % 8 == 0
    ensures bits_of(octets(b)) == b
    decreases b.len()
{
    if b.len() >= 8 {
        let (x, y) = (b.take(b.len() - 8), b.skip(b.len() - 8));
        lemma_octets(x); lemma_num(y); lemma_pow2i_small();
        lemma_bits_of_push(octets(x), num(y) as u8);
        assert(x + y =~= b);
    } else { assert(bits_of(Seq::<u8>::empty()) =~= b); }
}
// U01: every string has an encoding.
pub proof fn thm_encodable(s: Seq<u8>)
    ensures huff(s, octets(enc_bits(s) + ones(pad(enc_bits(s).len() as int))))
{ lemma_octets(enc_bits(s) + ones(pad(enc_bits(s).len() as int))); }
// f is o and then the string that src encodes.
pub open spec fn read_huff(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>) -> bool { o.len() <= f.len() && f.take(o.len() as int) == o && huff(f.skip(o.len() as int), src) }
// What decoding promises.
pub open spec fn dec_post(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, ok: bool) -> bool {
    &&& o.len() <= f.len() && f.take(o.len() as int) == o
    &&& ok ==> read_huff(src, o, f)
    &&& !ok ==> forall|s: Seq<u8>| !#[trigger] huff(s, src)
}
pub proof fn lemma_read(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, k: int)
    requires 0 <= k <= 7, gave(o, f, bits_of(src), ones(k))
    ensures read_huff(src, o, f)
{ lemma_bits_of_len(src); assert(pad(enc_bits(f.skip(o.len() as int)).len() as int) == k); }
pub proof fn lemma_finish(src: Seq<u8>, o: Seq<u8>, d: Seq<u8>, r: Seq<bool>)
    requires gave(o, d, bits_of(src), r)
    ensures forall|f: Seq<u8>, k: int| 0 <= k <= 7 && #[trigger] gave(d, f, r, ones(k)) ==> read_huff(src, o, f) && o.len() <= f.len() && f.take(o.len() as int) == o,
        fails(r) ==> (forall|s: Seq<u8>| !#[trigger] huff(s, src))
{
    let e = Seq::<bool>::empty();
    lemma_prefix_trans(o, d);
    if fails(r) { assert(src.take(src.len() as int) =~= src); lemma_fails_more(d.skip(o.len() as int), r); lemma_fails(src); }
    assert forall|f: Seq<u8>, k: int| 0 <= k <= 7 && #[trigger] gave(d, f, r, ones(k)) implies read_huff(src, o, f) && o.len() <= f.len() && f.take(o.len() as int) == o by {
        assert(r + e =~= r); assert(bits_of(src) + e =~= bits_of(src));
        lemma_gave_cat(o, d, f, bits_of(src), r, e, ones(k));
        lemma_read(src, o, f, k);
    }
}
pub proof fn lemma_src_step(src: Seq<u8>, i: int)
    requires 0 <= i < src.len()
    ensures bits_of(src.take(i + 1)) == bits_of(src.take(i)) + bits(8, src[i] as int)
{ assert(src.take(i + 1) =~= src.take(i).push(src[i])); lemma_bits_of_push(src.take(i), src[i]); }
pub proof fn lemma_bits_of_cat(a: Seq<u8>, b: Seq<u8>)
    ensures bits_of(a + b) == bits_of(a) + bits_of(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bits_of(a) + bits_of(b) =~= bits_of(a)); }
    else { lemma_bits_of_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(bits_of(a + b) =~= bits_of(a) + bits_of(b)); }
}
pub proof fn lemma_refuse(src: Seq<u8>, i: int, b: Seq<bool>)
    requires 0 <= i < src.len(), dead(b), gave_prefix(src, i, b)
    ensures fails(bits_of(src)), forall|s: Seq<u8>| !#[trigger] huff(s, src)
{
    let s = choose|s: Seq<u8>| bits_of(src.take(i + 1)) == #[trigger] enc_bits(s) + b;
    lemma_bits_of_cat(src.take(i + 1), src.skip(i + 1));
    assert(src =~= src.take(i + 1) + src.skip(i + 1));
    lemma_dead_more(s, b, bits_of(src.skip(i + 1)));
    lemma_dead_fails(bits_of(src));
    lemma_fails(src);
}
// After i octets and with the next one, b is what is not yet decoded.
pub open spec fn gave_prefix(src: Seq<u8>, i: int, b: Seq<bool>) -> bool { exists|s: Seq<u8>| bits_of(src.take(i + 1)) == #[trigger] enc_bits(s) + b }

pub open spec fn enc_table_ok(n: int) -> bool decreases n {
    n <= 0 || (crate::httlib_huffman::encoder::table::ENCODE_TABLE[n - 1].0 as int == clen(n - 1) && crate::httlib_huffman::encoder::table::ENCODE_TABLE[n - 1].1 as int == cval(n - 1) && enc_table_ok(n - 1))
}
proof fn lemma_enc_table_at(n: int, c: int)
    requires enc_table_ok(n), 0 <= c < n
    ensures crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].0 as int == clen(c), crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].1 as int == cval(c)
    decreases n
{ if c < n - 1 { lemma_enc_table_at(n - 1, c); } }
// U04: the table of the encoder is the one of RFC 7541.
pub proof fn thm_enc_table(c: int)
    requires 0 <= c <= 256
    ensures crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].0 as int == clen(c), crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].1 as int == cval(c)
{ hcode::lemma_enc_table(); lemma_enc_table_at(257, c); }

pub mod hcode {
use super::*;
proof fn thm_enc_table_all()
    ensures enc_table_ok(257)
{ reveal(rfc); reveal(crate::httlib_huffman::encoder::table::ENCODE_TABLE); assert(enc_table_ok(257)) by(compute_only); }
pub proof fn lemma_enc_table() ensures enc_table_ok(257) { thm_enc_table_all(); }
// What follows from the numbers of the table alone.
pub proof fn lemma_facts()
    ensures codes_ok(257), sorted_ok(257), rank_ok(257), clen(256) == 30, cval(256) == 0x3fff_ffff
{
    reveal(rfc); reveal(sorted); reveal(rank);
    assert(codes_ok(257)) by(compute_only);
    assert(sorted_ok(257)) by(compute_only);
    assert(rank_ok(257)) by(compute_only);
    assert(clen(256) == 30 && cval(256) == 0x3fff_ffff) by(compute_only);
}
}

// ------------------------------------------------------- theorems
// U02, U03: an octet sequence is the encoding of at most one string, whatever the speed.
pub proof fn thm_decoding_unique(a: Seq<u8>, b: Seq<u8>, out: Seq<u8>)
    requires huff(a, out), huff(b, out)
    ensures a == b
{
    let (j, k) = (pad(enc_bits(a).len() as int), pad(enc_bits(b).len() as int));
    lemma_stuck_ones(j); lemma_stuck_ones(k);
    lemma_unique(a, ones(j), b, ones(k));
}
// U01: there is exactly one encoding of a string.
pub proof fn thm_encoding_unique(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires huff(s, a), huff(s, b)
    ensures a == b
{ lemma_bits_of_inj(a, b); }

// U02: what was encoded comes back.
pub proof fn thm_huffman_round_trip(s: Seq<u8>, o1: Seq<u8>, f1: Seq<u8>, o2: Seq<u8>, f2: Seq<u8>, ok: bool)
    requires wrote_huff(s, o1, f1), dec_post(f1.skip(o1.len() as int), o2, f2, ok)
    ensures ok, f2 == o2 + s
{
    let out = f1.skip(o1.len() as int);
    assert(huff(s, out));
    thm_decoding_unique(s, f2.skip(o2.len() as int), out);
    assert(f2 =~= f2.take(o2.len() as int) + f2.skip(o2.len() as int));
}
// U03: decoding succeeds exactly on encodings, and two decodings of the same octets agree.
pub proof fn thm_same_result(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, ok: bool, g: Seq<u8>, ok2: bool)
    requires dec_post(src, o, f, ok), dec_post(src, o, g, ok2)
    ensures ok <==> exists|s: Seq<u8>| huff(s, src), ok == ok2, ok ==> f == g
{
    if ok && ok2 {
        thm_decoding_unique(f.skip(o.len() as int), g.skip(o.len() as int), src);
        assert(f =~= f.take(o.len() as int) + f.skip(o.len() as int));
        assert(g =~= g.take(o.len() as int) + g.skip(o.len() as int));
    }
}
// U03: nothing that holds the code of EOS is an encoding.
pub proof fn thm_eos_refused(a: Seq<u8>, r: Seq<bool>, src: Seq<u8>)
    requires bits_of(src) == enc_bits(a) + (code(256) + r)
    ensures forall|s: Seq<u8>| !#[trigger] huff(s, src)
{ assert(dead(bits_of(src))); lemma_dead_fails(bits_of(src)); lemma_fails(src); }
// U04: whatever is done with a table, a code leads to its symbol: after a row whose bits begin the
// code of c, the key that holds the next bits of the code gives c, or a row further along the code.
pub proof fn thm_table_follows(speed: int, id: int, k: int, c: int, r: Seq<bool>)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, 0 <= k < pow2i(speed), 0 <= c <= 256,
        code(c) + r == bits(path(speed, id).0, path(speed, id).1) + bits(speed, k)
    ensures ent(speed, id, k).1 == Some(c as u16), ent(speed, id, k).2 == r.len()
{
    lemma_entry(speed, id, k); lemma_key_all(speed, k);
    let e = ent(speed, id, k);
    let p = path(speed, id);
    let full = kept(p.0, p.1, speed, k);
    lemma_code(c);
    lemma_bits_len(p.0, p.1); lemma_bits_len(speed, k);
    match e.1 {
        Some(d) => {
            lemma_key_symbol(speed, id, speed, k, d as int, e.2 as int);
            lemma_code(d as int);
            assert(full.take(clen(c)) =~= code(c));
            assert(full.take(clen(d as int)) =~= code(d as int));
            if clen(c) <= clen(d as int) { assert(code(d as int).take(clen(c)) =~= code(c)); lemma_prefix_free(c, d as int); }
            else { assert(code(c).take(clen(d as int)) =~= code(d as int)); lemma_prefix_free(d as int, c); }
        },
        None => {
            let j = e.0.unwrap() as int;
            let q = path(speed, j);
            lemma_key_row(speed, id, speed, k, j);
            lemma_pow2i_mono(0, speed);
            lemma_table(speed, j, 0); lemma_row_proper(q); lemma_code(q.2);
            lemma_bits_len(0, k % pow2i(0));
            assert(full =~= bits(q.0, q.1));
            assert(full.take(clen(c)) =~= code(c));
            assert(code(q.2).take(clen(c)) =~= full.take(clen(c)));
            lemma_prefix_free(c, q.2);
        },
    }
}

} // verus!
}
pub mod spec { pub use crate::hspec::*; pub use crate::hints::*; }

pub mod statics {
use vstd::prelude::*;
verus! {
#[verifier::opaque]
pub open spec fn rfc_static(i: int) -> (Seq<u8>, Seq<u8>) { if i == 0 { (seq![58u8, 97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 116u8, 121u8], Seq::<u8>::empty()) } else if i == 1 { (seq![58u8, 109u8, 101u8, 116u8, 104u8, 111u8, 100u8], seq![71u8, 69u8, 84u8]) } else if i == 2 { (seq![58u8, 109u8, 101u8, 116u8, 104u8, 111u8, 100u8], seq![80u8, 79u8, 83u8, 84u8]) } else if i == 3 { (seq![58u8, 112u8, 97u8, 116u8, 104u8], seq![47u8]) } else if i == 4 { (seq![58u8, 112u8, 97u8, 116u8, 104u8], seq![47u8, 105u8, 110u8, 100u8, 101u8, 120u8, 46u8, 104u8, 116u8, 109u8, 108u8]) } else if i == 5 { (seq![58u8, 115u8, 99u8, 104u8, 101u8, 109u8, 101u8], seq![104u8, 116u8, 116u8, 112u8]) } else if i == 6 { (seq![58u8, 115u8, 99u8, 104u8, 101u8, 109u8, 101u8], seq![104u8, 116u8, 116u8, 112u8, 115u8]) } else if i == 7 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![50u8, 48u8, 48u8]) } else if i == 8 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![50u8, 48u8, 52u8]) } else if i == 9 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![50u8, 48u8, 54u8]) } else if i == 10 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![51u8, 48u8, 52u8]) } else if i == 11 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![52u8, 48u8, 48u8]) } else if i == 12 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![52u8, 48u8, 52u8]) } else if i == 13 { (seq![58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], seq![53u8, 48u8, 48u8]) } else if i == 14 { (seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 99u8, 104u8, 97u8, 114u8, 115u8, 101u8, 116u8], Seq::<u8>::empty()) } else if i == 15 { (seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], seq![103u8, 122u8, 105u8, 112u8, 44u8, 32u8, 100u8, 101u8, 102u8, 108u8, 97u8, 116u8, 101u8]) } else if i == 16 { (seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 108u8, 97u8, 110u8, 103u8, 117u8, 97u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 17 { (seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8, 115u8], Seq::<u8>::empty()) } else if i == 18 { (seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8], Seq::<u8>::empty()) } else if i == 19 { (seq![97u8, 99u8, 99u8, 101u8, 115u8, 115u8, 45u8, 99u8, 111u8, 110u8, 116u8, 114u8, 111u8, 108u8, 45u8, 97u8, 108u8, 108u8, 111u8, 119u8, 45u8, 111u8, 114u8, 105u8, 103u8, 105u8, 110u8], Seq::<u8>::empty()) } else if i == 20 { (seq![97u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 21 { (seq![97u8, 108u8, 108u8, 111u8, 119u8], Seq::<u8>::empty()) } else if i == 22 { (seq![97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 122u8, 97u8, 116u8, 105u8, 111u8, 110u8], Seq::<u8>::empty()) } else if i == 23 { (seq![99u8, 97u8, 99u8, 104u8, 101u8, 45u8, 99u8, 111u8, 110u8, 116u8, 114u8, 111u8, 108u8], Seq::<u8>::empty()) } else if i == 24 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 100u8, 105u8, 115u8, 112u8, 111u8, 115u8, 105u8, 116u8, 105u8, 111u8, 110u8], Seq::<u8>::empty()) } else if i == 25 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], Seq::<u8>::empty()) } else if i == 26 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 97u8, 110u8, 103u8, 117u8, 97u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 27 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 101u8, 110u8, 103u8, 116u8, 104u8], Seq::<u8>::empty()) } else if i == 28 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 111u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8], Seq::<u8>::empty()) } else if i == 29 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 30 { (seq![99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 116u8, 121u8, 112u8, 101u8], Seq::<u8>::empty()) } else if i == 31 { (seq![99u8, 111u8, 111u8, 107u8, 105u8, 101u8], Seq::<u8>::empty()) } else if i == 32 { (seq![100u8, 97u8, 116u8, 101u8], Seq::<u8>::empty()) } else if i == 33 { (seq![101u8, 116u8, 97u8, 103u8], Seq::<u8>::empty()) } else if i == 34 { (seq![101u8, 120u8, 112u8, 101u8, 99u8, 116u8], Seq::<u8>::empty()) } else if i == 35 { (seq![101u8, 120u8, 112u8, 105u8, 114u8, 101u8, 115u8], Seq::<u8>::empty()) } else if i == 36 { (seq![102u8, 114u8, 111u8, 109u8], Seq::<u8>::empty()) } else if i == 37 { (seq![104u8, 111u8, 115u8, 116u8], Seq::<u8>::empty()) } else if i == 38 { (seq![105u8, 102u8, 45u8, 109u8, 97u8, 116u8, 99u8, 104u8], Seq::<u8>::empty()) } else if i == 39 { (seq![105u8, 102u8, 45u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8, 45u8, 115u8, 105u8, 110u8, 99u8, 101u8], Seq::<u8>::empty()) } else if i == 40 { (seq![105u8, 102u8, 45u8, 110u8, 111u8, 110u8, 101u8, 45u8, 109u8, 97u8, 116u8, 99u8, 104u8], Seq::<u8>::empty()) } else if i == 41 { (seq![105u8, 102u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 42 { (seq![105u8, 102u8, 45u8, 117u8, 110u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8, 45u8, 115u8, 105u8, 110u8, 99u8, 101u8], Seq::<u8>::empty()) } else if i == 43 { (seq![108u8, 97u8, 115u8, 116u8, 45u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8], Seq::<u8>::empty()) } else if i == 44 { (seq![108u8, 105u8, 110u8, 107u8], Seq::<u8>::empty()) } else if i == 45 { (seq![108u8, 111u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8], Seq::<u8>::empty()) } else if i == 46 { (seq![109u8, 97u8, 120u8, 45u8, 102u8, 111u8, 114u8, 119u8, 97u8, 114u8, 100u8, 115u8], Seq::<u8>::empty()) } else if i == 47 { (seq![112u8, 114u8, 111u8, 120u8, 121u8, 45u8, 97u8, 117u8, 116u8, 104u8, 101u8, 110u8, 116u8, 105u8, 99u8, 97u8, 116u8, 101u8], Seq::<u8>::empty()) } else if i == 48 { (seq![112u8, 114u8, 111u8, 120u8, 121u8, 45u8, 97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 122u8, 97u8, 116u8, 105u8, 111u8, 110u8], Seq::<u8>::empty()) } else if i == 49 { (seq![114u8, 97u8, 110u8, 103u8, 101u8], Seq::<u8>::empty()) } else if i == 50 { (seq![114u8, 101u8, 102u8, 101u8, 114u8, 101u8, 114u8], Seq::<u8>::empty()) } else if i == 51 { (seq![114u8, 101u8, 102u8, 114u8, 101u8, 115u8, 104u8], Seq::<u8>::empty()) } else if i == 52 { (seq![114u8, 101u8, 116u8, 114u8, 121u8, 45u8, 97u8, 102u8, 116u8, 101u8, 114u8], Seq::<u8>::empty()) } else if i == 53 { (seq![115u8, 101u8, 114u8, 118u8, 101u8, 114u8], Seq::<u8>::empty()) } else if i == 54 { (seq![115u8, 101u8, 116u8, 45u8, 99u8, 111u8, 111u8, 107u8, 105u8, 101u8], Seq::<u8>::empty()) } else if i == 55 { (seq![115u8, 116u8, 114u8, 105u8, 99u8, 116u8, 45u8, 116u8, 114u8, 97u8, 110u8, 115u8, 112u8, 111u8, 114u8, 116u8, 45u8, 115u8, 101u8, 99u8, 117u8, 114u8, 105u8, 116u8, 121u8], Seq::<u8>::empty()) } else if i == 56 { (seq![116u8, 114u8, 97u8, 110u8, 115u8, 102u8, 101u8, 114u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], Seq::<u8>::empty()) } else if i == 57 { (seq![117u8, 115u8, 101u8, 114u8, 45u8, 97u8, 103u8, 101u8, 110u8, 116u8], Seq::<u8>::empty()) } else if i == 58 { (seq![118u8, 97u8, 114u8, 121u8], Seq::<u8>::empty()) } else if i == 59 { (seq![118u8, 105u8, 97u8], Seq::<u8>::empty()) } else if i == 60 { (seq![119u8, 119u8, 119u8, 45u8, 97u8, 117u8, 116u8, 104u8, 101u8, 110u8, 116u8, 105u8, 99u8, 97u8, 116u8, 101u8], Seq::<u8>::empty()) } else { (Seq::empty(), Seq::empty()) } }
pub open spec fn is_static(s: Seq<(&[u8], &[u8])>) -> bool { s.len() == 61 && forall|i: int| 0 <= i < 61 ==> (#[trigger] s[i]).0@ == rfc_static(i).0 && s[i].1@ == rfc_static(i).1 }
}
}

// HPACK (RFC 7541): what its encoder and decoder are supposed to do, independently of the code.
pub mod pspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::statics::*;
use crate::hspec::{huff, pow2i, lemma_pow2i_small, wrote_huff, read_huff, dec_post, thm_encoding_unique, thm_decoding_unique, thm_encodable};
use crate::httlib_hpack::encoder::{EncoderInput, EncoderError};
use crate::httlib_hpack::decoder::DecoderError;
verus! {

// ------------------------------------------------------- integers (5.1)
// Groups of seven bits, least significant first; only the last octet has its top bit clear.
pub open spec fn tail7(v: int) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(128 + v % 128) as u8] + tail7(v / 128) }
}
pub open spec fn top(flags: u8, n: int) -> int { flags as int / pow2i(n) * pow2i(n) }
pub open spec fn int_enc(v: int, flags: u8, n: int) -> Seq<u8> {
    let m = pow2i(n) - 1;
    if v < m { seq![(top(flags, n) + v) as u8] } else { seq![(top(flags, n) + m) as u8] + tail7(v - m) }
}
pub enum IntR { Val(int, int), Short, Long }
pub open spec fn int_more(b: Seq<u8>, i: int, acc: int, mul: int) -> IntR decreases 5 - i {
    if i >= 5 { IntR::Long }
    else if i >= b.len() { IntR::Short }
    else {
        let a = acc + (b[i] as int % 128) * mul;
        if b[i] < 128 { IntR::Val(a, i + 1) } else { int_more(b, i + 1, a, mul * 128) }
    }
}
// The number that `b` begins with and the number of octets it takes (at most five).
pub open spec fn int_dec(b: Seq<u8>, n: int) -> IntR {
    if b.len() == 0 { IntR::Short }
    else if b[0] as int % pow2i(n) < pow2i(n) - 1 { IntR::Val(b[0] as int % pow2i(n), 1) }
    else { int_more(b, 1, pow2i(n) - 1, 1) }
}

// ------------------------------------------------------- strings (5.2)
pub open spec fn raw(s: Seq<u8>, h: bool) -> Seq<u8> { if h { choose|w: Seq<u8>| #[trigger] huff(s, w) } else { s } }
pub open spec fn str_enc(s: Seq<u8>, h: bool) -> Seq<u8> { int_enc(raw(s, h).len() as int, if h { 0x80 } else { 0 }, 7) + raw(s, h) }
pub enum StrR { Val(Seq<u8>, int), Short, Long, Bad }
pub open spec fn str_dec(b: Seq<u8>) -> StrR {
    match int_dec(b, 7) {
        IntR::Short => StrR::Short,
        IntR::Long => StrR::Long,
        IntR::Val(l, u) =>
            if l > b.len() - u { StrR::Short }
            else if b[0] < 128 { StrR::Val(b.subrange(u, u + l), u + l) }
            else if exists|s: Seq<u8>| #[trigger] huff(s, b.subrange(u, u + l)) { StrR::Val(choose|s: Seq<u8>| #[trigger] huff(s, b.subrange(u, u + l)), u + l) }
            else { StrR::Bad },
    }
}

// ------------------------------------------------------- tables (2.3, 4)
pub type Entry = (Seq<u8>, Seq<u8>);
pub struct TV { pub dy: Seq<Entry>, pub max: int }
pub open spec fn esize(e: Entry) -> int { e.0.len() as int + e.1.len() as int + 32 }
pub open spec fn dsize(d: Seq<Entry>) -> int decreases d.len() { if d.len() == 0 { 0 } else { dsize(d.drop_last()) + esize(d.last()) } }
// Entries leave oldest first until the rest fits.
pub open spec fn evict(d: Seq<Entry>, max: int) -> Seq<Entry> decreases d.len() {
    if d.len() == 0 || dsize(d) <= max { d } else { evict(d.drop_last(), max) }
}
pub open spec fn insert(t: TV, n: Seq<u8>, v: Seq<u8>) -> TV { TV { dy: evict(seq![(n, v)] + t.dy, t.max), max: t.max } }
pub open spec fn resize(t: TV, m: int) -> TV { TV { dy: evict(t.dy, m), max: m } }
pub open spec fn fits(t: TV) -> bool { 0 <= t.max <= u32::MAX && dsize(t.dy) <= t.max }
pub open spec fn lookup(t: TV, i: int) -> Option<Entry> {
    if 1 <= i <= 61 { Some(rfc_static(i - 1)) } else if 62 <= i < 62 + t.dy.len() { Some(t.dy[i - 62]) } else { None }
}
pub open spec fn named(t: TV, i: int, n: Seq<u8>) -> bool { lookup(t, i) is Some && lookup(t, i).unwrap().0 == n }
pub open spec fn is_at(t: TV, i: int, n: Seq<u8>, v: Seq<u8>) -> bool { lookup(t, i) == Some((n, v)) }
// The answer of a search: the lowest index that matches name and value, or else the lowest that matches the name.
pub open spec fn found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>) -> bool {
    match r {
        Some((i, true)) => is_at(t, i, n, v) && forall|j: int| j < i ==> !#[trigger] is_at(t, j, n, v),
        Some((i, false)) => named(t, i, n) && (forall|j: int| !#[trigger] is_at(t, j, n, v)) && forall|j: int| j < i ==> !#[trigger] named(t, j, n),
        None => forall|j: int| !#[trigger] named(t, j, n),
    }
}
pub open spec fn find(t: TV, n: Seq<u8>, v: Seq<u8>) -> Option<(int, bool)> { choose|r: Option<(int, bool)>| found(t, n, v, r) }

// ------------------------------------------------------- representations (6), encoding
pub enum Inp { Idx(int), Name(int, Seq<u8>, u8), Lit(Seq<u8>, Seq<u8>, u8), Size(int) }
pub open spec fn inp(x: EncoderInput) -> Inp {
    match x {
        EncoderInput::Indexed(i) => Inp::Idx(i as int),
        EncoderInput::IndexedName(i, v, f) => Inp::Name(i as int, v@, f),
        EncoderInput::Literal(n, v, f) => Inp::Lit(n@, v@, f),
    }
}
pub open spec fn mark(f: u8) -> u8 { if f & 4 == 4 { 4 } else if f & 8 == 8 { 8 } else { 0 } }
pub open spec fn pattern(f: u8) -> u8 { if mark(f) == 4 { 0x40 } else if mark(f) == 8 { 0x10 } else { 0 } }
pub open spec fn prefix(f: u8) -> int { if mark(f) == 4 { 6 } else { 4 } }
pub open spec fn after(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8) -> TV { if mark(f) == 4 { insert(t, n, v) } else { t } }
pub open spec fn enc_index(t: TV, i: int) -> Option<(TV, Seq<u8>)> {
    match lookup(t, i) { None => None, Some(e) => Some((t, int_enc(i, 0x80, 7))) }
}
pub open spec fn enc_name(t: TV, i: int, v: Seq<u8>, f: u8) -> Option<(TV, Seq<u8>)> {
    match lookup(t, i) { None => None, Some(e) => Some((after(t, e.0, v, f), int_enc(i, pattern(f), prefix(f)) + str_enc(v, f & 2 == 2))) }
}
pub open spec fn enc_lit(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8) -> Option<(TV, Seq<u8>)> {
    Some((after(t, n, v, f), int_enc(0, pattern(f), prefix(f)) + str_enc(n, f & 1 == 1) + str_enc(v, f & 2 == 2)))
}
// What is written for a header (None: refused) and the table afterwards.
pub open spec fn enc(t: TV, x: Inp) -> Option<(TV, Seq<u8>)> {
    match x {
        Inp::Idx(i) => enc_index(t, i),
        Inp::Name(i, v, f) => enc_name(t, i, v, f),
        Inp::Lit(n, v, f) =>
            if f & 0x10 == 0x10 {
                match find(t, n, v) {
                    Some((i, full)) => if full && mark(f) != 8 { enc_index(t, i) } else { enc_name(t, i, v, f) },
                    None => enc_lit(t, n, v, f),
                }
            } else { enc_lit(t, n, v, f) },
        Inp::Size(m) => Some((resize(t, m), int_enc(m, 0x20, 5))),
    }
}
pub open spec fn str_ok(s: Seq<u8>) -> bool { s.len() <= u32::MAX && raw(s, true).len() <= u32::MAX }
// Strings whose length can be written.
pub open spec fn inp_ok(x: Inp) -> bool {
    match x { Inp::Idx(i) => true, Inp::Name(i, v, f) => str_ok(v), Inp::Lit(n, v, f) => str_ok(n) && str_ok(v), Inp::Size(m) => true }
}
pub open spec fn enc_post(t: TV, x: Inp, r: Option<(TV, Seq<u8>)>, o: Seq<u8>, t1: TV, f: Seq<u8>, ret: Result<(), EncoderError>) -> bool {
    &&& fits(t1) && t1.max == t.max
    &&& ret is Ok ==> r is Some && t1 == r.unwrap().0 && f == o + r.unwrap().1
    &&& ret is Err && inp_ok(x) ==> r is None && t1 == t && f == o
    &&& r is None ==> ret == Err::<(), EncoderError>(EncoderError::InvalidIndex)
}

// ------------------------------------------------------- representations (6), decoding
pub type Field = (Seq<u8>, Seq<u8>, u8);
pub enum Fail { Short, Long, Index, Input, Size, Prefix }
pub open spec fn fail_of(e: DecoderError) -> Fail {
    match e {
        DecoderError::InvalidInput => Fail::Input,
        DecoderError::InvalidIndex => Fail::Index,
        DecoderError::InvalidPrefix => Fail::Prefix,
        DecoderError::IntegerOverflow => Fail::Long,
        DecoderError::IntegerUnderflow => Fail::Short,
        DecoderError::InvalidMaxDynamicSize => Fail::Size,
    }
}
// Table afterwards, header if any, octets taken.
pub enum StepR { Done(TV, Option<Field>, int), Stop(Fail) }
pub open spec fn dec_index(t: TV, b: Seq<u8>) -> StepR {
    match int_dec(b, 7) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(i, u) => match lookup(t, i) { Some(e) => StepR::Done(t, Some((e.0, e.1, 0)), u), None => StepR::Stop(Fail::Index) },
    }
}
pub open spec fn dec_value(t: TV, b: Seq<u8>, u: int, name: Seq<u8>, f: u8) -> StepR {
    match str_dec(b.skip(u)) {
        StrR::Short => StepR::Stop(Fail::Short),
        StrR::Long => StepR::Stop(Fail::Long),
        StrR::Bad => StepR::Stop(Fail::Input),
        StrR::Val(v, k) => StepR::Done(if f == 4 { insert(t, name, v) } else { t }, Some((name, v, f)), u + k),
    }
}
pub open spec fn dec_lit(t: TV, b: Seq<u8>, n: int, f: u8) -> StepR {
    match int_dec(b, n) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(i, u) =>
            if i == 0 {
                match str_dec(b.skip(u)) {
                    StrR::Short => StepR::Stop(Fail::Short),
                    StrR::Long => StepR::Stop(Fail::Long),
                    StrR::Bad => StepR::Stop(Fail::Input),
                    StrR::Val(name, k) => dec_value(t, b, u + k, name, f),
                }
            } else {
                match lookup(t, i) { Some(e) => dec_value(t, b, u, e.0, f), None => StepR::Stop(Fail::Index) }
            },
    }
}
pub open spec fn dec_size(t: TV, limit: int, b: Seq<u8>) -> StepR {
    match int_dec(b, 5) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(m, u) => if m > limit { StepR::Stop(Fail::Size) } else { StepR::Done(resize(t, m), None, u) },
    }
}
// One representation at the start of `b` (not empty).
pub open spec fn step(t: TV, limit: int, b: Seq<u8>) -> StepR {
    if b[0] >= 0x80 { dec_index(t, b) }
    else if b[0] >= 0x40 { dec_lit(t, b, 6, 4) }
    else if b[0] >= 0x20 { dec_size(t, limit, b) }
    else if b[0] >= 0x10 { dec_lit(t, b, 4, 8) }
    else { dec_lit(t, b, 4, 0) }
}
pub open spec fn opt(f: Option<Field>) -> Seq<Field> { match f { Some(x) => seq![x], None => Seq::empty() } }
pub struct RunR { pub t: TV, pub out: Seq<Field>, pub used: int, pub fail: Option<Fail> }
// At most `n` representations, one after the other.
pub open spec fn run(t: TV, limit: int, b: Seq<u8>, n: int) -> RunR decreases n {
    if n <= 0 || b.len() == 0 { RunR { t: t, out: Seq::empty(), used: 0, fail: None } }
    else {
        match step(t, limit, b) {
            StepR::Stop(e) => RunR { t: t, out: Seq::empty(), used: 0, fail: Some(e) },
            StepR::Done(t1, f, u) => {
                let r = run(t1, limit, b.skip(u), n - 1);
                RunR { t: r.t, out: opt(f) + r.out, used: u + r.used, fail: r.fail }
            },
        }
    }
}
pub open spec fn run_all(t: TV, limit: int, b: Seq<u8>) -> RunR { run(t, limit, b, b.len() as int) }
pub open spec fn fields(d: Seq<(Vec<u8>, Vec<u8>, u8)>) -> Seq<Field> { d.map_values(|e: (Vec<u8>, Vec<u8>, u8)| (e.0@, e.1@, e.2)) }
pub open spec fn step_post(r: StepR, t: TV, b: Seq<u8>, d: Seq<Field>, t1: TV, b1: Seq<u8>, d1: Seq<Field>, ret: Result<usize, DecoderError>) -> bool {
    fits(t1) && match r {
        StepR::Done(t2, f, u) => ret == Ok::<usize, DecoderError>(u as usize) && 0 < u <= b.len() && t1 == t2 && b1 == b.skip(u) && d1 == d + opt(f),
        StepR::Stop(e) => ret is Err && fail_of(ret->Err_0) == e && t1 == t && b1 == b && d1 == d,
    }
}
pub open spec fn run_post(r: RunR, b: Seq<u8>, d: Seq<Field>, t1: TV, b1: Seq<u8>, d1: Seq<Field>, ret: Result<usize, DecoderError>) -> bool {
    &&& fits(t1)
    &&& t1 == r.t && b1 == b.skip(r.used) && d1 == d + r.out && 0 <= r.used <= b.len()
    &&& ret is Ok ==> r.fail is None && ret->Ok_0 == r.used
    &&& ret is Err ==> r.fail == Some(fail_of(ret->Err_0))
}

// ------------------------------------------------------- lemmas: runs
pub open spec fn join(out: Seq<Field>, used: int, r: RunR) -> RunR { RunR { t: r.t, out: out + r.out, used: used + r.used, fail: r.fail } }
// In the middle of a run `r`: `used` octets are taken, `d` holds what was delivered, `q` is what remains to be done.
pub open spec fn running(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int) -> bool {
    &&& 0 <= used <= b0.len() && b == b0.skip(used)
    &&& d0.len() <= d.len() && d.take(d0.len() as int) == d0
    &&& r == join(d.skip(d0.len() as int), used, q)
}
pub proof fn lemma_run_start(r: RunR, b: Seq<u8>, d0: Seq<Field>, d: Seq<Field>)
    requires d == d0
    ensures running(r, b, d0, r, b, d, 0)
{
    assert(b.skip(0) =~= b); assert(d.take(d0.len() as int) =~= d); assert(d.skip(d0.len() as int) + r.out =~= r.out);
}
pub proof fn lemma_running(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int, s: StepR, q2: RunR, b2: Seq<u8>, d2: Seq<Field>)
    requires running(r, b0, d0, q, b, d, used), s is Done, 0 < s->Done_2 <= b.len(), b2 == b.skip(s->Done_2), d2 == d + opt(s->Done_1), q == join(opt(s->Done_1), s->Done_2, q2)
    ensures running(r, b0, d0, q2, b2, d2, used + s->Done_2)
{
    let u = s->Done_2; let f = opt(s->Done_1); let n = d0.len() as int;
    assert(b2 =~= b0.skip(used + u));
    assert(d2.take(n) =~= d0);
    assert(d2.skip(n) =~= d.skip(n) + f);
    assert(d.skip(n) + (f + q2.out) =~= (d.skip(n) + f) + q2.out);
}
pub broadcast proof fn lemma_running_end(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int)
    requires #[trigger] running(r, b0, d0, q, b, d, used), q.out.len() == 0, q.used == 0
    ensures d == d0 + r.out, b == b0.skip(r.used), r.used == used, r.t == q.t, r.fail == q.fail, r.used <= b0.len()
{
    let n = d0.len() as int;
    assert(d.skip(n) + q.out =~= d.skip(n));
    assert(d0 + d.skip(n) =~= d);
}
pub broadcast proof fn lemma_fields_push(d: Seq<(Vec<u8>, Vec<u8>, u8)>, e: (Vec<u8>, Vec<u8>, u8))
    ensures #[trigger] fields(d.push(e)) == fields(d) + opt(Some((e.0@, e.1@, e.2)))
{ assert(fields(d.push(e)) =~= fields(d) + opt(Some((e.0@, e.1@, e.2)))); }
pub broadcast proof fn lemma_fields_cat(d: Seq<(Vec<u8>, Vec<u8>, u8)>, e: Seq<(Vec<u8>, Vec<u8>, u8)>)
    ensures #[trigger] fields(d + e) == fields(d) + fields(e)
{ assert(fields(d + e) =~= fields(d) + fields(e)); }
pub broadcast proof fn lemma_fields_empty(d: Seq<(Vec<u8>, Vec<u8>, u8)>)
    ensures d.len() == 0 ==> #[trigger] fields(d) == Seq::<Field>::empty()
{ if d.len() == 0 { assert(fields(d) =~= Seq::<Field>::empty()); } }
pub proof fn lemma_int_dec(b: Seq<u8>, n: int)
    requires 1 <= n <= 8
    ensures int_dec(b, n) is Val ==> 0 < int_dec(b, n)->Val_1 <= b.len() && int_dec(b, n)->Val_1 <= 5 && int_dec(b, n)->Val_0 >= 0
{
    lemma_pow2i_small();
    if b.len() > 0 && b[0] as int % pow2i(n) >= pow2i(n) - 1 { lemma_int_more(b, 1, pow2i(n) - 1, 1); }
}
pub proof fn lemma_int_more(b: Seq<u8>, i: int, acc: int, mul: int)
    requires 0 < i, acc >= 0, mul > 0
    ensures int_more(b, i, acc, mul) is Val ==> i < int_more(b, i, acc, mul)->Val_1 <= b.len() && int_more(b, i, acc, mul)->Val_1 <= 5 && int_more(b, i, acc, mul)->Val_0 >= acc
    decreases 5 - i
{
    if i < 5 && i < b.len() {
        let a = acc + (b[i] as int % 128) * mul;
        assert((b[i] as int % 128) * mul >= 0) by(nonlinear_arith) requires mul > 0;
        lemma_int_more(b, i + 1, a, mul * 128);
    }
}
pub proof fn lemma_str_dec(b: Seq<u8>)
    ensures str_dec(b) is Val ==> 0 < str_dec(b)->Val_1 <= b.len()
{ lemma_int_dec(b, 7); }
pub proof fn lemma_step(t: TV, limit: int, b: Seq<u8>)
    requires b.len() > 0
    ensures step(t, limit, b) is Done ==> 0 < step(t, limit, b)->Done_2 <= b.len()
{
    lemma_int_dec(b, 7); lemma_int_dec(b, 6); lemma_int_dec(b, 5); lemma_int_dec(b, 4);
    assert forall|u: int| 0 <= u <= b.len() implies str_dec(#[trigger] b.skip(u)) is Val ==> 0 < str_dec(b.skip(u))->Val_1 <= b.len() - u by { lemma_str_dec(b.skip(u)); }
}
pub proof fn lemma_run_more(t: TV, limit: int, b: Seq<u8>, n: int, m: int)
    requires b.len() <= n, b.len() <= m
    ensures run(t, limit, b, n) == run(t, limit, b, m)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_step(t, limit, b);
        if let StepR::Done(t1, f, u) = step(t, limit, b) { lemma_run_more(t1, limit, b.skip(u), n - 1, m - 1); }
    }
}
pub broadcast proof fn lemma_run_none(t: TV, limit: int, b: Seq<u8>)
    ensures #![trigger run_all(t, limit, b)] b.len() == 0 ==> run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: None })
{}
pub proof fn lemma_run_all(t: TV, limit: int, b: Seq<u8>)
    ensures
        b.len() == 0 ==> run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: None }),
        b.len() > 0 ==> match step(t, limit, b) {
            StepR::Stop(e) => run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: Some(e) }) && run(t, limit, b, 1) == run_all(t, limit, b),
            StepR::Done(t1, f, u) => 0 < u <= b.len() && run_all(t, limit, b) == join(opt(f), u, run_all(t1, limit, b.skip(u)))
                && run(t, limit, b, 1) == (RunR { t: t1, out: opt(f), used: u, fail: None }),
        }
{
    if b.len() > 0 {
        lemma_step(t, limit, b);
        if let StepR::Done(t1, f, u) = step(t, limit, b) {
            lemma_run_more(t1, limit, b.skip(u), b.len() - 1, b.len() - u);
            assert(opt(f) + Seq::<Field>::empty() =~= opt(f));
            assert(run(t1, limit, b.skip(u), 0) == (RunR { t: t1, out: Seq::empty(), used: 0, fail: None }));
            reveal_with_fuel(run, 2);
        }
    }
}
// ------------------------------------------------------- lemmas: octets
pub proof fn lemma_patterns(o: u8)
    ensures (o & 128 == 128) == (o >= 128), o < 128 ==> (o & 64 == 64) == (o >= 64), o < 64 ==> (o & 32 == 32) == (o >= 32), o < 32 ==> (o & 16 == 16) == (o >= 16),
        o < 32 ==> o & 64 != 64, 64 <= o < 128 ==> o & 64 == 64
{
    assert((o & 128 == 128) == (o >= 128)) by(bit_vector);
    assert(o < 128 ==> (o & 64 == 64) == (o >= 64)) by(bit_vector);
    assert(o < 64 ==> (o & 32 == 32) == (o >= 32)) by(bit_vector);
    assert(o < 32 ==> (o & 16 == 16) == (o >= 16)) by(bit_vector);
    assert(o < 32 ==> o & 64 != 64) by(bit_vector);
}
// Tests of single bits of an octet, written in other ways.
pub broadcast proof fn lemma_bit1(o: u8)
    ensures #[trigger] (o & 1) == 0 || o & 1 == 1, (o & 1 == 1) == ((o / 1) % 2 == 1)
{ assert((o & 1 == 0 || o & 1 == 1) && (o & 1 == 1) == ((o / 1) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit2(o: u8)
    ensures #[trigger] (o & 2) == 0 || o & 2 == 2, (o & 2 == 2) == ((o / 2) % 2 == 1)
{ assert((o & 2 == 0 || o & 2 == 2) && (o & 2 == 2) == ((o / 2) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit4(o: u8)
    ensures #[trigger] (o & 4) == 0 || o & 4 == 4, (o & 4 == 4) == ((o / 4) % 2 == 1)
{ assert((o & 4 == 0 || o & 4 == 4) && (o & 4 == 4) == ((o / 4) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit8(o: u8)
    ensures #[trigger] (o & 8) == 0 || o & 8 == 8, (o & 8 == 8) == ((o / 8) % 2 == 1)
{ assert((o & 8 == 0 || o & 8 == 8) && (o & 8 == 8) == ((o / 8) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit16(o: u8)
    ensures #[trigger] (o & 16) == 0 || o & 16 == 16, (o & 16 == 16) == ((o / 16) % 2 == 1)
{ assert((o & 16 == 0 || o & 16 == 16) && (o & 16 == 16) == ((o / 16) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit32(o: u8)
    ensures #[trigger] (o & 32) == 0 || o & 32 == 32, (o & 32 == 32) == ((o / 32) % 2 == 1)
{ assert((o & 32 == 0 || o & 32 == 32) && (o & 32 == 32) == ((o / 32) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit64(o: u8)
    ensures #[trigger] (o & 64) == 0 || o & 64 == 64, (o & 64 == 64) == ((o / 64) % 2 == 1)
{ assert((o & 64 == 0 || o & 64 == 64) && (o & 64 == 64) == ((o / 64) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit128(o: u8)
    ensures #[trigger] (o & 128) == 0 || o & 128 == 128, (o & 128 == 128) == ((o / 128) % 2 == 1)
{ assert((o & 128 == 0 || o & 128 == 128) && (o & 128 == 128) == ((o / 128) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_shr1(o: u8)
    ensures #[trigger] (o >> 1) == o / 2
{ assert(o >> 1 == o / 2) by(bit_vector); }
pub broadcast proof fn lemma_shr2(o: u8)
    ensures #[trigger] (o >> 2) == o / 4
{ assert(o >> 2 == o / 4) by(bit_vector); }
pub broadcast proof fn lemma_shr3(o: u8)
    ensures #[trigger] (o >> 3) == o / 8
{ assert(o >> 3 == o / 8) by(bit_vector); }
pub broadcast proof fn lemma_shr4(o: u8)
    ensures #[trigger] (o >> 4) == o / 16
{ assert(o >> 4 == o / 16) by(bit_vector); }
pub broadcast proof fn lemma_shr5(o: u8)
    ensures #[trigger] (o >> 5) == o / 32
{ assert(o >> 5 == o / 32) by(bit_vector); }
pub broadcast proof fn lemma_shr6(o: u8)
    ensures #[trigger] (o >> 6) == o / 64
{ assert(o >> 6 == o / 64) by(bit_vector); }
pub broadcast proof fn lemma_shr7(o: u8)
    ensures #[trigger] (o >> 7) == o / 128
{ assert(o >> 7 == o / 128) by(bit_vector); }
pub broadcast proof fn lemma_and15(o: u8)
    ensures #[trigger] (o & 15) == o % 16
{ assert(o & 15 == o % 16) by(bit_vector); }
pub broadcast proof fn lemma_and31(o: u8)
    ensures #[trigger] (o & 31) == o % 32
{ assert(o & 31 == o % 32) by(bit_vector); }
pub broadcast proof fn lemma_and63(o: u8)
    ensures #[trigger] (o & 63) == o % 64
{ assert(o & 63 == o % 64) by(bit_vector); }
pub broadcast proof fn lemma_and127(o: u8)
    ensures #[trigger] (o & 127) == o % 128
{ assert(o & 127 == o % 128) by(bit_vector); }
pub broadcast proof fn lemma_and192(o: u8)
    ensures #[trigger] (o & 192) == o / 64 * 64
{ assert(o & 192 == o / 64 * 64) by(bit_vector); }
pub broadcast proof fn lemma_and224(o: u8)
    ensures #[trigger] (o & 224) == o / 32 * 32
{ assert(o & 224 == o / 32 * 32) by(bit_vector); }
pub broadcast proof fn lemma_and240(o: u8)
    ensures #[trigger] (o & 240) == o / 16 * 16
{ assert(o & 240 == o / 16 * 16) by(bit_vector); }
pub broadcast group group_bits { lemma_bit1, lemma_bit2, lemma_bit4, lemma_bit8, lemma_bit16, lemma_bit32, lemma_bit64, lemma_bit128, lemma_shr1, lemma_shr2, lemma_shr3, lemma_shr4, lemma_shr5, lemma_shr6, lemma_shr7, lemma_and15, lemma_and31, lemma_and63, lemma_and127, lemma_and192, lemma_and224, lemma_and240 }
pub proof fn lemma_prefix(n: u8, f: u8)
    ensures 1 <= n <= 8 ==> {
        &&& pow2i(n as int) == 1i32 << n && 2 <= pow2i(n as int) <= 256
        &&& top(f, n as int) == (f & ((255 - (((1i32 << n) - 1) as u8)) as u8))
        &&& 0 <= top(f, n as int) <= 255 - (pow2i(n as int) - 1)
        &&& forall|v: u8| v <= pow2i(n as int) - 1 ==> #[trigger] ((f & ((255 - (((1i32 << n) - 1) as u8)) as u8)) | v) == top(f, n as int) + v
    }
{
    lemma_pow2i_small();
    if 1 <= n <= 8 {
        assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
        assert(f & 254 == f / 2 * 2 && f & 252 == f / 4 * 4 && f & 248 == f / 8 * 8 && f & 240 == f / 16 * 16 && f & 224 == f / 32 * 32 && f & 192 == f / 64 * 64 && f & 128 == f / 128 * 128 && f & 0 == 0) by(bit_vector);
        assert forall|v: u8| v <= pow2i(n as int) - 1 implies #[trigger] ((f & ((255 - (((1i32 << n) - 1) as u8)) as u8)) | v) == top(f, n as int) + v by {
            assert(v <= 1 ==> (f & 254) | v == (f & 254) + v) by(bit_vector);
            assert(v <= 3 ==> (f & 252) | v == (f & 252) + v) by(bit_vector);
            assert(v <= 7 ==> (f & 248) | v == (f & 248) + v) by(bit_vector);
            assert(v <= 15 ==> (f & 240) | v == (f & 240) + v) by(bit_vector);
            assert(v <= 31 ==> (f & 224) | v == (f & 224) + v) by(bit_vector);
            assert(v <= 63 ==> (f & 192) | v == (f & 192) + v) by(bit_vector);
            assert(v <= 127 ==> (f & 128) | v == (f & 128) + v) by(bit_vector);
            assert((f & 0) | v == v) by(bit_vector);
        }
    }
}
// The same numbers, written in other ways.
pub proof fn lemma_prefix_forms(n: u8)
    requires 1 <= n <= 8
    ensures pow2i(n as int) == 1i32 << n, pow2i(n as int) == 1u16 << n, pow2i(n as int) == 1u32 << n, pow2i(n as int) == 1u64 << n, pow2i(n as int) == 1usize << n,
        pow2i(n as int) == 1u32 << (n as u32), pow2i(n as int) - 1 == 255u8 >> ((8 - n) as u8), forall|m: u8| #[trigger] !m == 255 - m
{
    lemma_pow2i_small();
    assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
    assert(1u16 << 1u8 == 2 && 1u16 << 2u8 == 4 && 1u16 << 3u8 == 8 && 1u16 << 4u8 == 16 && 1u16 << 5u8 == 32 && 1u16 << 6u8 == 64 && 1u16 << 7u8 == 128 && 1u16 << 8u8 == 256) by(bit_vector);
    assert(1u32 << 1u8 == 2 && 1u32 << 2u8 == 4 && 1u32 << 3u8 == 8 && 1u32 << 4u8 == 16 && 1u32 << 5u8 == 32 && 1u32 << 6u8 == 64 && 1u32 << 7u8 == 128 && 1u32 << 8u8 == 256) by(bit_vector);
    assert(1u64 << 1u8 == 2 && 1u64 << 2u8 == 4 && 1u64 << 3u8 == 8 && 1u64 << 4u8 == 16 && 1u64 << 5u8 == 32 && 1u64 << 6u8 == 64 && 1u64 << 7u8 == 128 && 1u64 << 8u8 == 256) by(bit_vector);
    assert(1usize << 1u8 == 2 && 1usize << 2u8 == 4 && 1usize << 3u8 == 8 && 1usize << 4u8 == 16 && 1usize << 5u8 == 32 && 1usize << 6u8 == 64 && 1usize << 7u8 == 128 && 1usize << 8u8 == 256) by(bit_vector);
    assert(1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16 && 1u32 << 5u32 == 32 && 1u32 << 6u32 == 64 && 1u32 << 7u32 == 128 && 1u32 << 8u32 == 256) by(bit_vector);
    assert(255u8 >> 7u8 == 1 && 255u8 >> 6u8 == 3 && 255u8 >> 5u8 == 7 && 255u8 >> 4u8 == 15 && 255u8 >> 3u8 == 31 && 255u8 >> 2u8 == 63 && 255u8 >> 1u8 == 127 && 255u8 >> 0u8 == 255) by(bit_vector);
    assert forall|m: u8| #[trigger] !m == 255 - m by { assert(!m == 255 - m) by(bit_vector); }
}
pub proof fn lemma_group_forms(v: u32)
    ensures v >> 7 == v / 128, v & 127 == v % 128, (v as u8) & 127 == v % 128, (v & 0xff) as u8 == v as u8,
        0b10000000 | v as u8 == 128 + v % 128, v as u8 | 0b10000000 == 128 + v % 128, 0b10000000 | (v & 127) as u8 == 128 + v % 128, (v & 127) as u8 | 0b10000000 == 128 + v % 128,
        0b10000000 | (v % 128) as u8 == 128 + v % 128, (v % 128) as u8 | 0b10000000 == 128 + v % 128, 0b10000000 | ((v as u8) & 127) == 128 + v % 128, ((v as u8) & 127) | 0b10000000 == 128 + v % 128,
        (v & 127 | 128) as u8 == 128 + v % 128, (128 | v & 127) as u8 == 128 + v % 128, v < 128 ==> v as u8 == v
{
    assert(v >> 7 == v / 128 && v & 127 == v % 128 && (v as u8) & 127 == v % 128 && (v & 0xff) as u8 == v as u8) by(bit_vector);
    assert(0b10000000 | v as u8 == 128 + v % 128 && v as u8 | 0b10000000 == 128 + v % 128 && 0b10000000 | (v & 127) as u8 == 128 + v % 128 && (v & 127) as u8 | 0b10000000 == 128 + v % 128) by(bit_vector);
    assert(0b10000000 | (v % 128) as u8 == 128 + v % 128 && (v % 128) as u8 | 0b10000000 == 128 + v % 128 && 0b10000000 | ((v as u8) & 127) == 128 + v % 128 && ((v as u8) & 127) | 0b10000000 == 128 + v % 128) by(bit_vector);
    assert((v & 127 | 128) as u8 == 128 + v % 128 && (128 | v & 127) as u8 == 128 + v % 128) by(bit_vector);
}
pub proof fn lemma_octet_forms(o: u8, s: int)
    requires s == 0 || s == 7 || s == 14 || s == 21
    ensures o & 127 == o % 128, (o as u32) & 127 == o % 128, (o & 128 == 0) == (o < 128), (o & 128 != 0) == (o >= 128), (o & 128 == 128) == (o >= 128), o >> 7 == o / 128,
        pow2i(s) == 1u32 << (s as u32), pow2i(s) == 1u32 << (s as i32), pow2i(s) == 1u32 << (s as usize), pow2i(s) == 1u32 << (s as u8),
        ((o & 127) as u32) << (s as usize) == (o as int % 128) * pow2i(s), ((o & 127) as u32) << (s as u8) == (o as int % 128) * pow2i(s),
        ((o % 128) as u32) << (s as i32) == (o as int % 128) * pow2i(s), ((o as u32) & 127) << (s as i32) == (o as int % 128) * pow2i(s),
        ((o % 128) as u32) << (s as u32) == (o as int % 128) * pow2i(s), ((o as u32) & 127) << (s as u32) == (o as int % 128) * pow2i(s)
{
    lemma_pow_shifts();
    assert(o & 127 == o % 128 && (o as u32) & 127 == o % 128 && (o & 128 == 0) == (o < 128) && (o & 128 != 0) == (o >= 128) && (o & 128 == 128) == (o >= 128) && o >> 7 == o / 128) by(bit_vector);
    assert(1u32 << 0u32 == 1 && 1u32 << 7u32 == 128 && 1u32 << 14u32 == 0x4000 && 1u32 << 21u32 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0i32 == 1 && 1u32 << 7i32 == 128 && 1u32 << 14i32 == 0x4000 && 1u32 << 21i32 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0u8 == 1 && 1u32 << 7u8 == 128 && 1u32 << 14u8 == 0x4000 && 1u32 << 21u8 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0usize == 1 && 1u32 << 7usize == 128 && 1u32 << 14usize == 0x4000 && 1u32 << 21usize == 0x20_0000) by(bit_vector);
    let w = (o % 128) as u32;
    assert(w < 128 ==> w << 0i32 == w && w << 7i32 == w * 128 && w << 14i32 == w * 0x4000 && w << 21i32 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0u32 == w && w << 7u32 == w * 128 && w << 14u32 == w * 0x4000 && w << 21u32 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0u8 == w && w << 7u8 == w * 128 && w << 14u8 == w * 0x4000 && w << 21u8 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0usize == w && w << 7usize == w * 128 && w << 14usize == w * 0x4000 && w << 21usize == w * 0x20_0000) by(bit_vector);
}
pub proof fn lemma_low(n: u8, o: u8)
    requires 1 <= n <= 8
    ensures (o & (((1i32 << n) - 1) as u8)) == o as int % pow2i(n as int)
{
    lemma_pow2i_small();
    assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
    assert(o & 1 == o % 2 && o & 3 == o % 4 && o & 7 == o % 8 && o & 15 == o % 16 && o & 31 == o % 32 && o & 63 == o % 64 && o & 127 == o % 128 && o & 255 == o) by(bit_vector);
}
pub proof fn lemma_group(v: u32, d: Seq<u8>)
    requires v >= 128
    ensures d.push(0b10000000 | v as u8) + tail7((v >> 7) as int) == d + tail7(v as int), v >> 7 < v
{
    assert(0b10000000 | v as u8 == 128 + v % 128) by(bit_vector);
    assert(v >> 7 == v / 128) by(bit_vector);
    assert(d.push((128 + v % 128) as u8) + tail7((v / 128) as int) =~= d + tail7(v as int));
}
pub proof fn lemma_pow_shifts()
    ensures pow2i(0) == 1, pow2i(7) == 128, pow2i(14) == 0x4000, pow2i(21) == 0x20_0000, pow2i(28) == 0x1000_0000
{ assert(pow2i(0) == 1 && pow2i(7) == 128 && pow2i(14) == 0x4000 && pow2i(21) == 0x20_0000 && pow2i(28) == 0x1000_0000) by(compute_only); }
pub proof fn lemma_dec_group(o: u8, s: int)
    requires s == 0 || s == 7 || s == 14 || s == 21
    ensures
        ((o & 127) as u32) << (s as i32) == (o as int % 128) * pow2i(s), ((o & 127) as u32) << (s as u32) == (o as int % 128) * pow2i(s),
        0 <= (o as int % 128) * pow2i(s) <= 127 * pow2i(s), 1 <= pow2i(s) <= 0x20_0000, pow2i(s + 7) == pow2i(s) * 128, (o & 128 == 0) == (o < 128)
{
    lemma_pow_shifts();
    assert((o & 128 == 0) == (o < 128)) by(bit_vector);
    assert(((o & 127) as u32) << 0i32 == (o % 128) as u32 && ((o & 127) as u32) << 7i32 == ((o % 128) as u32) * 128 && ((o & 127) as u32) << 14i32 == ((o % 128) as u32) * 0x4000 && ((o & 127) as u32) << 21i32 == ((o % 128) as u32) * 0x20_0000) by(bit_vector);
    assert(((o & 127) as u32) << 0u32 == (o % 128) as u32 && ((o & 127) as u32) << 7u32 == ((o % 128) as u32) * 128 && ((o & 127) as u32) << 14u32 == ((o % 128) as u32) * 0x4000 && ((o & 127) as u32) << 21u32 == ((o % 128) as u32) * 0x20_0000) by(bit_vector);
}
// What decoding appends is the string that is meant.
pub proof fn lemma_read_str(src: Seq<u8>, o: Seq<u8>)
    ensures forall|f: Seq<u8>| #[trigger] read_huff(src, o, f) ==> f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src))
{
    assert forall|f: Seq<u8>| #[trigger] read_huff(src, o, f) implies f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src)) by {
        let n = o.len() as int;
        assert(huff(f.skip(n), src));
        thm_decoding_unique(f.skip(n), choose|s: Seq<u8>| #[trigger] huff(s, src), src);
        assert(f =~= f.take(n) + f.skip(n));
    }
}
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_push_one(d: Seq<u8>, x: u8)
    ensures #[trigger] d.push(x) == d + seq![x]
{ assert(d.push(x) =~= d + seq![x]); }
pub broadcast proof fn lemma_same_octets(a: &[u8], b: &[u8])
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@)
{ assert(a@ =~= b@ <==> a@ == b@); }
pub proof fn lemma_read_any(o: Seq<u8>)
    ensures forall|src: Seq<u8>, f: Seq<u8>| #[trigger] read_huff(src, o, f) ==> f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src))
{
    assert forall|src: Seq<u8>, f: Seq<u8>| #[trigger] read_huff(src, o, f) implies f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src)) by { lemma_read_str(src, o); }
}
pub proof fn lemma_zero(d: Seq<u8>)
    ensures d.push(0x40) == d + int_enc(0, 0x40, 6), d.push(0x10) == d + int_enc(0, 0x10, 4), d.push(0) == d + int_enc(0, 0, 4)
{
    lemma_pow2i_small();
    assert(d.push(0x40) =~= d + int_enc(0, 0x40, 6)); assert(d.push(0x10) =~= d + int_enc(0, 0x10, 4)); assert(d.push(0) =~= d + int_enc(0, 0, 4));
}
pub proof fn lemma_never(f: u8)
    ensures (f & 0xC != 0x8) == (mark(f) != 8)
{
    assert((f & 0xC != 0x8) == (f & 4 == 4 || f & 8 != 8)) by(bit_vector);
}
// ------------------------------------------------------- lemmas: tables
pub proof fn lemma_dsize_push_front(d: Seq<Entry>, e: Entry)
    ensures dsize(seq![e] + d) == esize(e) + dsize(d)
    decreases d.len()
{
    if d.len() == 0 { assert((seq![e] + d).drop_last() =~= Seq::empty()); assert((seq![e] + d).last() == e); assert(dsize(Seq::<Entry>::empty()) == 0); }
    else {
        assert((seq![e] + d).drop_last() =~= seq![e] + d.drop_last());
        lemma_dsize_push_front(d.drop_last(), e);
    }
}
pub proof fn lemma_dsize(d: Seq<Entry>)
    ensures dsize(d) >= 32 * d.len()
    decreases d.len()
{ if d.len() > 0 { lemma_dsize(d.drop_last()); } }
pub proof fn lemma_pop(d: Seq<(Vec<u8>, Vec<u8>)>)
    ensures d.len() == 0 ==> dsize(entries(d)) == 0,
        d.len() > 0 ==> entries(d.drop_last()) == entries(d).drop_last() && dsize(entries(d.drop_last())) >= 0 && dsize(entries(d)) == dsize(entries(d.drop_last())) + d.last().0@.len() + d.last().1@.len() + 32
{
    if d.len() > 0 {
        assert(entries(d.drop_last()) =~= entries(d).drop_last());
        lemma_dsize(entries(d.drop_last()));
        assert(entries(d).last() == (d.last().0@, d.last().1@));
    }
}
pub broadcast proof fn lemma_short_table(t: TV)
    ensures #[trigger] fits(t) ==> t.dy.len() <= 0x800_0000
{ lemma_dsize(t.dy); }
pub proof fn lemma_evict_fits(d: Seq<Entry>, max: int)
    requires max >= 0
    ensures dsize(evict(d, max)) <= max
    decreases d.len()
{ if d.len() > 0 && dsize(d) > max { lemma_evict_fits(d.drop_last(), max); } }
// ------------------------------------------------------- lemmas: search
pub open spec fn is_entry(t: TV, i: int, r: Option<(&[u8], &[u8])>) -> bool {
    match r { Some(h) => lookup(t, i) == Some((h.0@, h.1@)), None => lookup(t, i) is None }
}
pub open spec fn opt_index(r: Option<(usize, bool)>) -> Option<(int, bool)> { match r { Some((i, b)) => Some((i as int, b)), None => None } }
// No index up to n matches in full; m is the lowest one that matches the name.
pub open spec fn searched(t: TV, n: Seq<u8>, v: Seq<u8>, k: int, m: Option<usize>) -> bool {
    &&& forall|j: int| j <= k ==> !#[trigger] is_at(t, j, n, v)
    &&& match m {
        Some(i) => named(t, i as int, n) && forall|j: int| j < i ==> !#[trigger] named(t, j, n),
        None => forall|j: int| j <= k ==> !#[trigger] named(t, j, n),
    }
}
pub proof fn lemma_found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>)
    requires found(t, n, v, r)
    ensures find(t, n, v) == r
{
    let q = find(t, n, v);
    assert(found(t, n, v, q));
    match (q, r) {
        (Some((i, true)), Some((j, true))) => { if i < j { assert(!is_at(t, i, n, v)); } if j < i { assert(!is_at(t, j, n, v)); } },
        (Some((i, false)), Some((j, false))) => { if i < j { assert(!named(t, i, n)); } if j < i { assert(!named(t, j, n)); } },
        (Some((i, true)), Some((j, false))) => { assert(!is_at(t, i, n, v)); },
        (Some((i, false)), Some((j, true))) => { assert(!is_at(t, j, n, v)); },
        (None, Some((j, b))) => { assert(!named(t, j, n)); },
        (Some((j, b)), None) => { assert(!named(t, j, n)); },
        (None, None) => {},
    }
}
pub proof fn lemma_raw(s: Seq<u8>, w: Seq<u8>)
    requires huff(s, w)
    ensures raw(s, true) == w
{ thm_encoding_unique(s, w, raw(s, true)); }
pub proof fn lemma_raw_all(s: Seq<u8>)
    ensures forall|w: Seq<u8>| huff(s, #[trigger] w.skip(0)) ==> w == raw(s, true)
{
    assert forall|w: Seq<u8>| huff(s, #[trigger] w.skip(0)) implies w == raw(s, true) by { assert(w.skip(0) =~= w); lemma_raw(s, w); }
}
pub open spec fn entries(d: Seq<(Vec<u8>, Vec<u8>)>) -> Seq<Entry> { d.map_values(|e: (Vec<u8>, Vec<u8>)| (e.0@, e.1@)) }
pub broadcast proof fn lemma_entries_push_front(d: Seq<(Vec<u8>, Vec<u8>)>, e: (Vec<u8>, Vec<u8>))
    ensures entries(#[trigger] (seq![e] + d)) == seq![(e.0@, e.1@)] + entries(d)
{ assert(entries(seq![e] + d) =~= seq![(e.0@, e.1@)] + entries(d)); }
pub broadcast proof fn lemma_entries_drop_last(d: Seq<(Vec<u8>, Vec<u8>)>)
    requires d.len() > 0
    ensures entries(#[trigger] d.drop_last()) == entries(d).drop_last()
{ assert(entries(d.drop_last()) =~= entries(d).drop_last()); }
pub broadcast proof fn lemma_entries_len(d: Seq<(Vec<u8>, Vec<u8>)>)
    ensures (#[trigger] entries(d)).len() == d.len()
{}

// ======================================================= theorems
// ------------------------------------------------------- H01
pub proof fn lemma_tail7_len(w: int, k: int)
    requires 0 <= w, 0 <= k
    ensures tail7(w).len() >= 1, w < 128 * pow2i(7 * k) <==> tail7(w).len() <= k + 1
    decreases k + w
{
    lemma_pow_step(k);
    if w < 128 { assert(128 * pow2i(7 * k) >= 128); }
    else {
        lemma_tail7_len(w / 128, if k > 0 { k - 1 } else { 0 });
        if k > 0 { lemma_pow_step(k - 1); assert((w < 128 * pow2i(7 * k)) == (w / 128 < pow2i(7 * k))); assert(pow2i(7 * k) == 128 * pow2i(7 * (k - 1))); }
        else { assert(pow2i(0) == 1); }
    }
}
pub proof fn lemma_pow_step(k: int)
    requires 0 <= k
    ensures pow2i(7 * k) >= 1, pow2i(7 * k + 7) == 128 * pow2i(7 * k)
    decreases k
{
    if k > 0 { lemma_pow_step(k - 1); }
    let a = 7 * k;
    assert(pow2i(a + 1) == 2 * pow2i(a)); assert(pow2i(a + 2) == 2 * pow2i(a + 1)); assert(pow2i(a + 3) == 2 * pow2i(a + 2)); assert(pow2i(a + 4) == 2 * pow2i(a + 3));
    assert(pow2i(a + 5) == 2 * pow2i(a + 4)); assert(pow2i(a + 6) == 2 * pow2i(a + 5)); assert(pow2i(a + 7) == 2 * pow2i(a + 6));
}
pub open spec fn at(b: Seq<u8>, i: int, s: Seq<u8>) -> bool { 0 <= i && i + s.len() <= b.len() && b.subrange(i, i + s.len()) == s }
pub proof fn lemma_read_tail7(b: Seq<u8>, i: int, w: int, acc: int, mul: int)
    requires at(b, i, tail7(w)), 0 <= w, i <= 5
    ensures int_more(b, i, acc, mul) == if i + tail7(w).len() <= 5 { IntR::Val(acc + w * mul, i + tail7(w).len()) } else { IntR::Long }
    decreases w
{
    let s = tail7(w);
    lemma_tail7_len(w, 0);
    assert(b[i] == b.subrange(i, i + s.len())[0]);
    if w < 128 {
        assert(s.len() == 1 && b[i] == w);
    } else {
        let r = tail7(w / 128);
        assert(s.len() == r.len() + 1 && b[i] == 128 + w % 128);
        assert(b.subrange(i + 1, i + 1 + r.len()) =~= r) by { assert(s.skip(1) =~= r); assert(b.subrange(i, i + s.len()).skip(1) =~= b.subrange(i + 1, i + 1 + r.len())); }
        lemma_tail7_len(w / 128, 0);
        if i < 5 {
            lemma_read_tail7(b, i + 1, w / 128, acc + (w % 128) * mul, mul * 128);
            assert((w % 128) * mul + (w / 128) * (mul * 128) == w * mul) by(nonlinear_arith);
            assert(b[i] as int % 128 == w % 128);
        }
    }
}
// What the encoder writes for a number: the flags above the prefix are kept, the number reads back, and nothing shorter says the same.
pub proof fn thm_int_round_trip(v: int, flags: u8, n: int, rest: Seq<u8>)
    requires 0 <= v, 1 <= n <= 8
    ensures ({
        let e = int_enc(v, flags, n);
        &&& e.len() >= 1 && e[0] as int / pow2i(n) == flags as int / pow2i(n)
        &&& int_dec(e + rest, n) == if e.len() <= 5 { IntR::Val(v, e.len() as int) } else { IntR::Long }
        &&& e.len() <= 5 <==> v < pow2i(n) - 1 + 0x1000_0000
    })
{
    let e = int_enc(v, flags, n); let m = pow2i(n) - 1; let b = e + rest;
    lemma_pow2i_small(); lemma_pow_shifts();
    lemma_top(flags, n);
    assert(b[0] == e[0]);
    if v < m {
        lemma_top_add(flags, n, v);
        assert(e.len() == 1);
    } else {
        lemma_top_add(flags, n, m);
        let t = tail7(v - m);
        assert(e.len() == 1 + t.len());
        assert(b.subrange(1, 1 + t.len() as int) =~= t);
        lemma_tail7_len(v - m, 3);
        lemma_read_tail7(b, 1, v - m, m, 1);
    }
}
pub proof fn lemma_top(flags: u8, n: int)
    requires 1 <= n <= 8
    ensures 0 <= top(flags, n) <= 256 - pow2i(n), 2 <= pow2i(n) <= 256
{ lemma_prefix(n as u8, flags); }
pub proof fn lemma_top_add(flags: u8, n: int, v: int)
    requires 1 <= n <= 8, 0 <= v < pow2i(n)
    ensures ((top(flags, n) + v) as u8) as int % pow2i(n) == v, ((top(flags, n) + v) as u8) as int / pow2i(n) == flags as int / pow2i(n), (top(flags, n) + v) as u8 == top(flags, n) + v
{
    lemma_top(flags, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(top(flags, n) + v, pow2i(n), flags as int / pow2i(n), v);
}
pub proof fn lemma_more_len(b: Seq<u8>, i: int, acc: int, mul: int)
    requires 1 <= i, mul >= 1, int_more(b, i, acc, mul) is Val
    ensures ({ let v = int_more(b, i, acc, mul)->Val_0; let u = int_more(b, i, acc, mul)->Val_1; i < u <= 5 && acc <= v && exists|w: int| v == acc + w * mul && #[trigger] tail7(w).len() <= u - i && 0 <= w })
    decreases 5 - i
{
    let d = b[i] as int % 128;
    if b[i] < 128 {
        assert(tail7(d).len() == 1);
        assert(d * mul >= 0) by(nonlinear_arith) requires d >= 0, mul >= 1;
    } else {
        lemma_more_len(b, i + 1, acc + d * mul, mul * 128);
        let v = int_more(b, i, acc, mul)->Val_0; let u = int_more(b, i, acc, mul)->Val_1;
        let w = choose|w: int| v == acc + d * mul + w * (mul * 128) && #[trigger] tail7(w).len() <= u - i - 1 && 0 <= w;
        let x = w * 128 + d;
        assert(d * mul + w * (mul * 128) == x * mul) by(nonlinear_arith) requires x == w * 128 + d;
        assert(x * mul >= 0) by(nonlinear_arith) requires x >= 0, mul >= 1;
        lemma_tail7_len(w, 0);
        if x >= 128 { assert(x / 128 == w); assert(tail7(x).len() == 1 + tail7(w).len()); } else { assert(tail7(x).len() == 1); }
    }
}
pub proof fn thm_int_shortest(b: Seq<u8>, flags: u8, n: int)
    requires 1 <= n <= 8, int_dec(b, n) is Val
    ensures int_enc(int_dec(b, n)->Val_0, flags, n).len() <= int_dec(b, n)->Val_1
{
    lemma_pow2i_small();
    let m = pow2i(n) - 1;
    if b[0] as int % pow2i(n) >= m {
        lemma_more_len(b, 1, m, 1);
        let v = int_dec(b, n)->Val_0; let u = int_dec(b, n)->Val_1;
        let w = choose|w: int| v == m + w * 1 && #[trigger] tail7(w).len() <= u - 1 && 0 <= w;
        assert(w == v - m);
    }
}
// ------------------------------------------------------- more octets (H01, H03, H11)
pub proof fn lemma_more_prefix(b: Seq<u8>, c: Seq<u8>, i: int, acc: int, mul: int)
    requires 0 <= i
    ensures !(int_more(b, i, acc, mul) is Short) ==> int_more(b + c, i, acc, mul) == int_more(b, i, acc, mul)
    decreases 5 - i
{
    if i < 5 && i < b.len() {
        assert((b + c)[i] == b[i]);
        lemma_more_prefix(b, c, i + 1, acc + (b[i] as int % 128) * mul, mul * 128);
    }
}
pub proof fn thm_int_prefix(b: Seq<u8>, c: Seq<u8>, n: int)
    ensures !(int_dec(b, n) is Short) ==> int_dec(b + c, n) == int_dec(b, n)
{
    if b.len() > 0 { assert((b + c)[0] == b[0]); lemma_more_prefix(b, c, 1, pow2i(n) - 1, 1); }
}
pub proof fn thm_str_prefix(b: Seq<u8>, c: Seq<u8>)
    ensures !(str_dec(b) is Short) ==> str_dec(b + c) == str_dec(b)
{
    thm_int_prefix(b, c, 7); lemma_int_dec(b, 7);
    if let IntR::Val(l, u) = int_dec(b, 7) { if l <= b.len() - u { assert((b + c).subrange(u, u + l) =~= b.subrange(u, u + l)); assert((b + c)[0] == b[0]); } }
}
pub proof fn lemma_value_prefix(t: TV, b: Seq<u8>, c: Seq<u8>, u: int, name: Seq<u8>, f: u8)
    requires 0 <= u <= b.len()
    ensures dec_value(t, b, u, name, f) != StepR::Stop(Fail::Short) ==> dec_value(t, b + c, u, name, f) == dec_value(t, b, u, name, f)
{ assert((b + c).skip(u) =~= b.skip(u) + c); thm_str_prefix(b.skip(u), c); }
pub proof fn lemma_lit_prefix(t: TV, b: Seq<u8>, c: Seq<u8>, n: int, f: u8)
    requires 1 <= n <= 8
    ensures dec_lit(t, b, n, f) != StepR::Stop(Fail::Short) ==> dec_lit(t, b + c, n, f) == dec_lit(t, b, n, f)
{
    thm_int_prefix(b, c, n); lemma_int_dec(b, n);
    if let IntR::Val(i, u) = int_dec(b, n) {
        assert((b + c).skip(u) =~= b.skip(u) + c);
        thm_str_prefix(b.skip(u), c); lemma_str_dec(b.skip(u));
        if i == 0 { if let StrR::Val(name, k) = str_dec(b.skip(u)) { lemma_value_prefix(t, b, c, u + k, name, f); } }
        else if let Some(e) = lookup(t, i) { lemma_value_prefix(t, b, c, u, e.0, f); }
    }
}
// Whatever a representation means or breaks does not depend on what follows it.
pub proof fn thm_step_prefix(t: TV, limit: int, b: Seq<u8>, c: Seq<u8>)
    requires b.len() > 0
    ensures step(t, limit, b) != StepR::Stop(Fail::Short) ==> step(t, limit, b + c) == step(t, limit, b)
{
    assert((b + c)[0] == b[0]);
    thm_int_prefix(b, c, 7); thm_int_prefix(b, c, 5);
    lemma_lit_prefix(t, b, c, 6, 4); lemma_lit_prefix(t, b, c, 4, 8); lemma_lit_prefix(t, b, c, 4, 0);
}
// Part of a representation is reported as too short.
pub proof fn thm_step_cut(t: TV, limit: int, b: Seq<u8>, k: int)
    requires b.len() > 0, step(t, limit, b) is Done, 0 < k < step(t, limit, b)->Done_2
    ensures step(t, limit, b.take(k)) == StepR::Stop(Fail::Short)
{
    lemma_step(t, limit, b); lemma_step(t, limit, b.take(k));
    assert(b.take(k) + b.skip(k) =~= b);
    thm_step_prefix(t, limit, b.take(k), b.skip(k));
}
// H11: stopping for want of octets and going on when they are there is as good as having had them at once;
// any other failure stays one.
pub proof fn thm_resume(t: TV, limit: int, b: Seq<u8>, c: Seq<u8>)
    ensures ({
        let r = run_all(t, limit, b);
        0 <= r.used <= b.len() && run_all(t, limit, b + c) == if r.fail is None || r.fail == Some(Fail::Short) { join(r.out, r.used, run_all(r.t, limit, b.skip(r.used) + c)) } else { r }
    })
    decreases b.len()
{
    hide(step); hide(run);
    let r = run_all(t, limit, b);
    lemma_run_all(t, limit, b); lemma_run_all(t, limit, b + c);
    if b.len() == 0 {
        assert(b.skip(0) + c =~= b + c);
        assert(Seq::<Field>::empty() + run_all(t, limit, b + c).out =~= run_all(t, limit, b + c).out);
    } else {
        thm_step_prefix(t, limit, b, c);
        match step(t, limit, b) {
            StepR::Stop(e) => {
                assert(b.skip(0) + c =~= b + c);
                assert(Seq::<Field>::empty() + run_all(t, limit, b + c).out =~= run_all(t, limit, b + c).out);
            },
            StepR::Done(t1, f, u) => {
                thm_resume(t1, limit, b.skip(u), c);
                let q = run_all(t1, limit, b.skip(u));
                assert((b + c).skip(u) =~= b.skip(u) + c);
                assert(b.skip(r.used) =~= b.skip(u).skip(q.used));
                let z = run_all(r.t, limit, b.skip(r.used) + c);
                assert(opt(f) + (q.out + z.out) =~= (opt(f) + q.out) + z.out);
            },
        }
    }
}
// ------------------------------------------------------- H03
pub proof fn lemma_raw_huff(s: Seq<u8>)
    ensures huff(s, raw(s, true))
{ thm_encodable(s); }
pub open spec fn short(s: Seq<u8>, h: bool) -> bool { raw(s, h).len() < 0x1000_007f }
pub proof fn lemma_str_full(s: Seq<u8>, h: bool, rest: Seq<u8>)
    requires short(s, h)
    ensures str_dec(str_enc(s, h) + rest) == StrR::Val(s, str_enc(s, h).len() as int), (str_enc(s, h)[0] >= 128) == h
{
    hide(int_enc); hide(int_dec);
    let r = raw(s, h); let n = r.len() as int; let fl = if h { 0x80u8 } else { 0 };
    let i = int_enc(n, fl, 7); let e = str_enc(s, h); let b = e + rest;
    lemma_pow2i_small();
    thm_int_round_trip(n, fl, 7, r + rest);
    assert(b =~= i + (r + rest));
    assert(b[0] == i[0] && e[0] == i[0]);
    assert(b.subrange(i.len() as int, i.len() + n) =~= r);
    assert(int_dec(b, 7) == IntR::Val(n, i.len() as int));
    assert((b[0] >= 128) == h);
    if h {
        lemma_raw_huff(s);
        assert(huff(s, r));
        thm_decoding_unique(s, choose|x: Seq<u8>| #[trigger] huff(x, r), r);
    }
}
pub proof fn lemma_str_cut(s: Seq<u8>, h: bool, k: int)
    requires short(s, h), 0 <= k < str_enc(s, h).len()
    ensures str_dec(str_enc(s, h).take(k)) is Short
{
    hide(str_dec); hide(str_enc);
    let e = str_enc(s, h);
    lemma_str_full(s, h, Seq::empty());
    assert(e + Seq::<u8>::empty() =~= e);
    assert(e.take(k) + e.skip(k) =~= e);
    thm_str_prefix(e.take(k), e.skip(k));
    lemma_str_dec(e.take(k));
}
pub proof fn thm_str_round_trip(s: Seq<u8>, h: bool, rest: Seq<u8>)
    requires short(s, h)
    ensures str_dec(str_enc(s, h) + rest) == StrR::Val(s, str_enc(s, h).len() as int), (str_enc(s, h)[0] >= 128) == h,
        forall|k: int| 0 <= k < str_enc(s, h).len() ==> str_dec(#[trigger] str_enc(s, h).take(k)) is Short
{
    hide(str_dec); hide(str_enc);
    lemma_str_full(s, h, rest);
    assert forall|k: int| 0 <= k < str_enc(s, h).len() implies str_dec(#[trigger] str_enc(s, h).take(k)) is Short by { lemma_str_cut(s, h, k); }
}
// ------------------------------------------------------- H04
// What is left is the longest front (newest entries) that fits.
pub proof fn thm_evict(d: Seq<Entry>, max: int)
    requires 0 <= max
    ensures evict(d, max).len() <= d.len(), evict(d, max) == d.take(evict(d, max).len() as int), dsize(evict(d, max)) <= max,
        evict(d, max).len() < d.len() ==> dsize(d.take(evict(d, max).len() as int + 1)) > max
    decreases d.len()
{
    if d.len() == 0 || dsize(d) <= max { assert(d.take(d.len() as int) =~= d); }
    else {
        thm_evict(d.drop_last(), max);
        let k = evict(d, max).len() as int;
        assert(d.drop_last().take(k) =~= d.take(k));
        if k < d.drop_last().len() { assert(d.drop_last().take(k + 1) =~= d.take(k + 1)); } else { assert(d.take(k + 1) =~= d); }
    }
}
// RFC 7541, 4.4: room is made for the new entry; one larger than the whole table empties it and is not added.
pub proof fn thm_insert(t: TV, n: Seq<u8>, v: Seq<u8>)
    requires fits(t)
    ensures fits(insert(t, n, v)), insert(t, n, v).max == t.max,
        esize((n, v)) > t.max ==> insert(t, n, v).dy.len() == 0,
        esize((n, v)) <= t.max ==> insert(t, n, v).dy == seq![(n, v)] + evict(t.dy, t.max - esize((n, v)))
{
    lemma_evict_fits(seq![(n, v)] + t.dy, t.max);
    lemma_insert(t.dy, (n, v), t.max);
}
pub proof fn lemma_insert(d: Seq<Entry>, e: Entry, max: int)
    requires 0 <= max
    ensures esize(e) > max ==> evict(seq![e] + d, max).len() == 0, esize(e) <= max ==> evict(seq![e] + d, max) == seq![e] + evict(d, max - esize(e))
    decreases d.len()
{
    lemma_dsize_push_front(d, e); lemma_dsize(d);
    if d.len() == 0 {
        assert(evict((seq![e] + d).drop_last(), max).len() == 0) by { assert((seq![e] + d).drop_last() =~= Seq::empty()); }
    } else {
        lemma_insert(d.drop_last(), e, max);
        assert((seq![e] + d).drop_last() =~= seq![e] + d.drop_last());
    }
}
pub proof fn thm_resize(t: TV, m: int)
    requires 0 <= m <= u32::MAX
    ensures fits(resize(t, m)), fits(t) && m >= t.max ==> resize(t, m).dy == t.dy
{ lemma_evict_fits(t.dy, m); }
// ------------------------------------------------------- H05
pub proof fn thm_lookup(t: TV, i: int)
    ensures lookup(t, i) is Some <==> 1 <= i < 62 + t.dy.len(), 1 <= i <= 61 ==> lookup(t, i) == Some(rfc_static(i - 1)), 0 <= i < t.dy.len() ==> lookup(t, 62 + i) == Some(t.dy[i])
{}
pub proof fn thm_lookup_after_insert(t: TV, n: Seq<u8>, v: Seq<u8>, i: int)
    requires fits(t), esize((n, v)) <= t.max
    ensures lookup(insert(t, n, v), 62) == Some((n, v)), i >= 62 && lookup(insert(t, n, v), i + 1) is Some ==> lookup(insert(t, n, v), i + 1) == lookup(t, i)
{
    thm_insert(t, n, v); thm_evict(t.dy, t.max - esize((n, v)));
}
// ------------------------------------------------------- H06
pub proof fn thm_found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>)
    requires found(t, n, v, r)
    ensures find(t, n, v) == r, r is Some <==> exists|j: int| #[trigger] named(t, j, n),
        (r is Some && r.unwrap().1) <==> exists|j: int| #[trigger] is_at(t, j, n, v)
{
    lemma_found(t, n, v, r);
    match r {
        Some((i, true)) => { assert(is_at(t, i, n, v) && named(t, i, n)); },
        Some((i, false)) => { assert(named(t, i, n)); },
        None => { assert forall|j: int| !#[trigger] is_at(t, j, n, v) by { assert(!named(t, j, n)); } },
    }
}
pub proof fn lemma_first_named(t: TV, n: Seq<u8>, k: int) -> (r: Option<int>)
    ensures match r { Some(i) => named(t, i, n) && i <= k && forall|j: int| j < i ==> !#[trigger] named(t, j, n), None => forall|j: int| j <= k ==> !#[trigger] named(t, j, n) }
    decreases k
{
    if k <= 0 { None }
    else {
        let r = lemma_first_named(t, n, k - 1);
        if r is None && named(t, k, n) { Some(k) } else { r }
    }
}
pub proof fn lemma_first_at(t: TV, n: Seq<u8>, v: Seq<u8>, k: int) -> (r: Option<int>)
    ensures match r { Some(i) => is_at(t, i, n, v) && i <= k && forall|j: int| j < i ==> !#[trigger] is_at(t, j, n, v), None => forall|j: int| j <= k ==> !#[trigger] is_at(t, j, n, v) }
    decreases k
{
    if k <= 0 { None }
    else {
        let r = lemma_first_at(t, n, v, k - 1);
        if r is None && is_at(t, k, n, v) { Some(k) } else { r }
    }
}
// A search always has an answer.
pub proof fn thm_find(t: TV, n: Seq<u8>, v: Seq<u8>)
    ensures found(t, n, v, find(t, n, v))
{
    let k = 61 + t.dy.len() as int;
    let r = match lemma_first_at(t, n, v, k) {
        Some(i) => Some((i, true)),
        None => match lemma_first_named(t, n, k) { Some(i) => Some((i, false)), None => None },
    };
    assert(found(t, n, v, r));
}
// ------------------------------------------------------- H07, H08
// The header that is meant (None: a size change).
pub open spec fn meant(t: TV, x: Inp) -> Option<Field> {
    match x {
        Inp::Idx(i) => Some((lookup(t, i).unwrap().0, lookup(t, i).unwrap().1, 0)),
        Inp::Name(i, v, f) => Some((lookup(t, i).unwrap().0, v, mark(f))),
        Inp::Lit(n, v, f) => Some((n, v, if as_index(t, x) { 0 } else { mark(f) })),
        Inp::Size(m) => None,
    }
}
// A literal that is written as an index after all.
pub open spec fn as_index(t: TV, x: Inp) -> bool {
    match x { Inp::Lit(n, v, f) => f & 0x10 == 0x10 && mark(f) != 8 && exists|j: int| #[trigger] is_at(t, j, n, v), _ => false }
}
// Within what the decoder reads: integers of at most five octets, size changes up to the limit.
pub open spec fn readable(x: Inp, limit: int) -> bool {
    match x {
        Inp::Idx(i) => true,
        Inp::Name(i, v, f) => short(v, f & 2 == 2),
        Inp::Lit(n, v, f) => short(n, f & 1 == 1) && short(v, f & 2 == 2),
        Inp::Size(m) => 0 <= m <= limit && m < 0x1000_001f,
    }
}
pub proof fn lemma_value_item(t: TV, b: Seq<u8>, u: int, name: Seq<u8>, f: u8, v: Seq<u8>, h: bool, rest: Seq<u8>)
    requires 0 <= u <= b.len(), b.skip(u) == str_enc(v, h) + rest, short(v, h)
    ensures dec_value(t, b, u, name, f) == StepR::Done(if f == 4 { insert(t, name, v) } else { t }, Some((name, v, f)), u + str_enc(v, h).len())
{ thm_str_round_trip(v, h, rest); }
pub proof fn lemma_name_item(t: TV, i: int, v: Seq<u8>, f: u8, rest: Seq<u8>)
    requires fits(t), lookup(t, i) is Some, short(v, f & 2 == 2)
    ensures ({
        let o = int_enc(i, pattern(f), prefix(f)) + str_enc(v, f & 2 == 2); let n = lookup(t, i).unwrap().0;
        &&& dec_lit(t, o + rest, prefix(f), mark(f)) == StepR::Done(after(t, n, v, f), Some((n, v, mark(f))), o.len() as int)
        &&& o.len() > 0 && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    })
{
    lemma_short_table(t);
    let h = f & 2 == 2; let e = int_enc(i, pattern(f), prefix(f)); let o = e + str_enc(v, h); let b = o + rest;
    lemma_pow2i_small();
    thm_int_round_trip(i, pattern(f), prefix(f), str_enc(v, h) + rest);
    assert(b =~= e + (str_enc(v, h) + rest));
    assert(b.skip(e.len() as int) =~= str_enc(v, h) + rest);
    lemma_value_item(t, b, e.len() as int, lookup(t, i).unwrap().0, mark(f), v, h, rest);
}
pub proof fn lemma_lit_item(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8, rest: Seq<u8>)
    requires short(n, f & 1 == 1), short(v, f & 2 == 2)
    ensures ({
        let o = enc_lit(t, n, v, f).unwrap().1;
        &&& dec_lit(t, o + rest, prefix(f), mark(f)) == StepR::Done(after(t, n, v, f), Some((n, v, mark(f))), o.len() as int)
        &&& o.len() > 0 && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    })
{
    hide(str_dec); hide(str_enc); hide(int_dec); hide(int_enc); hide(dec_value); hide(pow2i); hide(insert);
    let (g, h) = (f & 1 == 1, f & 2 == 2); let e = int_enc(0, pattern(f), prefix(f)); let o = e + str_enc(n, g) + str_enc(v, h); let b = o + rest;
    let w = str_enc(v, h) + rest; let k = e.len() as int; let l = str_enc(n, g).len() as int;
    lemma_pow2i_small();
    thm_int_round_trip(0, pattern(f), prefix(f), str_enc(n, g) + w);
    assert(b =~= e + (str_enc(n, g) + w));
    assert(b.skip(k) =~= str_enc(n, g) + w);
    thm_str_round_trip(n, g, w);
    assert(b.skip(k + l) =~= w);
    lemma_value_item(t, b, k + l, n, mark(f), v, h, rest);
}
pub proof fn lemma_index_item(t: TV, limit: int, i: int, rest: Seq<u8>)
    requires fits(t), lookup(t, i) is Some
    ensures ({
        let o = int_enc(i, 0x80, 7); let e = lookup(t, i).unwrap();
        &&& step(t, limit, o + rest) == StepR::Done(t, Some((e.0, e.1, 0)), o.len() as int)
        &&& o.len() > 0 && o[0] >= 0x80
    })
{
    lemma_short_table(t); lemma_pow2i_small();
    let o = int_enc(i, 0x80, 7);
    thm_int_round_trip(i, 0x80, 7, rest);
    assert((o + rest)[0] == o[0]);
}
pub proof fn lemma_lit_step(t: TV, limit: int, b: Seq<u8>, f: u8)
    requires b.len() > 0, b[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    ensures step(t, limit, b) == dec_lit(t, b, prefix(f), mark(f)), b[0] < 0x80,
        mark(f) == 4 <==> 0x40 <= b[0] < 0x80, mark(f) == 8 <==> 0x10 <= b[0] < 0x20, mark(f) == 0 <==> b[0] < 0x10
{ lemma_pow2i_small(); }
// H07: one item, read by the decoder, is the header that was meant and leaves the table the encoder has.
pub proof fn thm_item(t: TV, limit: int, x: Inp, rest: Seq<u8>)
    requires fits(t), enc(t, x) is Some, readable(x, limit)
    ensures ({
        let (t1, o) = enc(t, x).unwrap();
        &&& step(t, limit, o + rest) == StepR::Done(t1, meant(t, x), o.len() as int)
        &&& o.len() > 0
    })
{
    let (t1, o) = enc(t, x).unwrap();
    match x {
        Inp::Idx(i) => { lemma_index_item(t, limit, i, rest); },
        Inp::Name(i, v, f) => {
            lemma_name_item(t, i, v, f, rest);
            assert((o + rest)[0] == o[0]);
            lemma_lit_step(t, limit, o + rest, f);
        },
        Inp::Lit(n, v, f) => {
            thm_find(t, n, v); thm_found(t, n, v, find(t, n, v));
            assert((o + rest).len() > 0 ==> o.len() > 0 ==> (o + rest)[0] == o[0]);
            match find(t, n, v) {
                Some((i, full)) => {
                    if f & 0x10 == 0x10 {
                        if full && mark(f) != 8 { assert(is_at(t, i, n, v)); lemma_index_item(t, limit, i, rest); }
                        else {
                            assert(named(t, i, n)) by { if full { assert(is_at(t, i, n, v)); } }
                            lemma_name_item(t, i, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f);
                        }
                    } else { lemma_lit_item(t, n, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f); }
                },
                None => { lemma_lit_item(t, n, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f); },
            }
        },
        Inp::Size(m) => {
            lemma_pow2i_small();
            thm_int_round_trip(m, 0x20, 5, rest);
            assert((o + rest)[0] == o[0]);
        },
    }
}
pub open spec fn enc_all(t: TV, xs: Seq<Inp>) -> Option<(TV, Seq<u8>)> decreases xs.len() {
    if xs.len() == 0 { Some((t, Seq::empty())) }
    else {
        match enc(t, xs[0]) {
            None => None,
            Some((t1, o)) => match enc_all(t1, xs.skip(1)) { None => None, Some((t2, o2)) => Some((t2, o + o2)) },
        }
    }
}
pub open spec fn meant_all(t: TV, xs: Seq<Inp>) -> Seq<Field> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { opt(meant(t, xs[0])) + meant_all(enc(t, xs[0]).unwrap().0, xs.skip(1)) }
}
pub proof fn lemma_enc_fits(t: TV, x: Inp)
    requires fits(t), enc(t, x) is Some, x is Size ==> 0 <= x->Size_0 <= u32::MAX
    ensures fits(enc(t, x).unwrap().0)
{
    match x {
        Inp::Idx(i) => {},
        Inp::Name(i, v, f) => { thm_insert(t, lookup(t, i).unwrap().0, v); },
        Inp::Lit(n, v, f) => {
            thm_insert(t, n, v);
            if let Some((i, full)) = find(t, n, v) { if lookup(t, i) is Some { thm_insert(t, lookup(t, i).unwrap().0, v); } }
        },
        Inp::Size(m) => { thm_resize(t, m); },
    }
}
// H07: whatever an encoder writes is read back in full, and both sides end with the same table (so the next block starts alike).
pub proof fn thm_blocks(t: TV, limit: int, xs: Seq<Inp>)
    requires fits(t), enc_all(t, xs) is Some, limit <= u32::MAX, forall|i: int| 0 <= i < xs.len() ==> readable(#[trigger] xs[i], limit)
    ensures ({
        let (t1, o) = enc_all(t, xs).unwrap();
        run_all(t, limit, o) == RunR { t: t1, out: meant_all(t, xs), used: o.len() as int, fail: None }
    })
    decreases xs.len()
{
    hide(step); hide(enc); hide(run);
    let (t2, b) = enc_all(t, xs).unwrap();
    lemma_run_all(t, limit, b);
    if xs.len() > 0 {
        let (t1, o) = enc(t, xs[0]).unwrap();
        let o2 = enc_all(t1, xs.skip(1)).unwrap().1;
        assert(readable(xs[0], limit));
        lemma_enc_fits(t, xs[0]);
        thm_item(t, limit, xs[0], o2);
        assert forall|i: int| 0 <= i < xs.skip(1).len() implies readable(#[trigger] xs.skip(1)[i], limit) by { assert(readable(xs[i + 1], limit)); }
        thm_blocks(t1, limit, xs.skip(1));
        assert(b.skip(o.len() as int) =~= o2);
    }
}
// H08: which representation an item gets and what it does to the table.
pub proof fn thm_representation(t: TV, x: Inp)
    requires fits(t), enc(t, x) is Some
    ensures ({
        let (t1, o) = enc(t, x).unwrap();
        &&& o.len() > 0
        &&& x is Idx || as_index(t, x) ==> t1 == t && o[0] >= 0x80
        &&& match x {
            Inp::Idx(i) => lookup(t, i) is Some,
            Inp::Name(i, v, f) => t1 == after(t, lookup(t, i).unwrap().0, v, f) && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f)),
            Inp::Lit(n, v, f) => !as_index(t, x) ==> t1 == after(t, n, v, f) && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f)),
            Inp::Size(m) => 0 <= m ==> t1 == resize(t, m) && 0x20 <= o[0] < 0x40,
        }
    })
{
    lemma_pow2i_small(); lemma_short_table(t);
    let (t1, o) = enc(t, x).unwrap();
    match x {
        Inp::Idx(i) => { lemma_index_item(t, 0, i, Seq::empty()); },
        Inp::Name(i, v, f) => { thm_int_round_trip(i, pattern(f), prefix(f), Seq::empty()); },
        Inp::Lit(n, v, f) => {
            thm_find(t, n, v); thm_found(t, n, v, find(t, n, v));
            thm_int_round_trip(0, pattern(f), prefix(f), Seq::empty());
            if let Some((i, full)) = find(t, n, v) {
                assert(named(t, i, n)) by { if full { assert(is_at(t, i, n, v)); } }
                lemma_index_item(t, 0, i, Seq::empty());
                thm_int_round_trip(i, pattern(f), prefix(f), Seq::empty());
            }
        },
        Inp::Size(m) => { if m >= 0 { thm_int_round_trip(m, 0x20, 5, Seq::empty()); } },
    }
}
// ------------------------------------------------------- H10
pub proof fn thm_unindexed(t: TV, limit: int, x: Inp, rest: Seq<u8>)
    requires fits(t), enc(t, x) is Some, match x { Inp::Name(i, v, f) => mark(f) != 4, Inp::Lit(n, v, f) => mark(f) != 4, _ => false }
    ensures ({
        let (t1, o) = enc(t, x).unwrap(); let f = match x { Inp::Name(i, v, f) => f, Inp::Lit(n, v, f) => f, _ => 0 };
        &&& t1 == t
        &&& mark(f) == 8 ==> 0x10 <= o[0] < 0x20
        &&& readable(x, limit) && mark(f) == 8 ==> step(t, limit, o + rest) is Done && step(t, limit, o + rest)->Done_0 == t && step(t, limit, o + rest)->Done_1.unwrap().2 == 8
    })
{
    lemma_pow2i_small();
    thm_representation(t, x);
    if readable(x, limit) { thm_item(t, limit, x, rest); }
}
// On the reading side: only the pattern 01 adds to the table.
pub proof fn thm_decode_unindexed(t: TV, limit: int, b: Seq<u8>)
    requires b.len() > 0, step(t, limit, b) is Done, !(0x20 <= b[0] < 0x80)
    ensures step(t, limit, b)->Done_0 == t, step(t, limit, b)->Done_1 is Some,
        b[0] < 0x80 ==> step(t, limit, b)->Done_1.unwrap().2 == (if b[0] >= 0x10 { 8u8 } else { 0u8 })
{}
// ------------------------------------------------------- H12
pub proof fn thm_size_update(t: TV, limit: int, b: Seq<u8>)
    requires fits(t), 0 <= limit <= u32::MAX, b.len() > 0
    ensures
        0x20 <= b[0] < 0x40 ==> match int_dec(b, 5) {
            IntR::Val(m, u) => if m > limit { step(t, limit, b) == StepR::Stop(Fail::Size) }
                else { step(t, limit, b) == StepR::Done(resize(t, m), None, u) && fits(resize(t, m)) && (m >= t.max ==> resize(t, m).dy == t.dy) },
            _ => step(t, limit, b) is Stop,
        },
        !(0x20 <= b[0] < 0x40) && step(t, limit, b) is Done ==> step(t, limit, b)->Done_0.max == t.max
{
    lemma_int_dec(b, 5);
    if let IntR::Val(m, u) = int_dec(b, 5) { if m <= limit { thm_resize(t, m); } }
}
} // verus!
}

pub mod hints {
use vstd::prelude::*;
use crate::hspec::*;
verus! {
#[verifier::opaque]
pub open spec fn rfc(i: int) -> (int, int) { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { (13, 8184) } else { (23, 8388568) } } else { if i < 3 { (28, 268435426) } else { (28, 268435427) } } } else { if i < 6 { if i < 5 { (28, 268435428) } else { (28, 268435429) } } else { if i < 7 { (28, 268435430) } else { (28, 268435431) } } } } else { if i < 12 { if i < 10 { if i < 9 { (28, 268435432) } else { (24, 16777194) } } else { if i < 11 { (30, 1073741820) } else { (28, 268435433) } } } else { if i < 14 { if i < 13 { (28, 268435434) } else { (30, 1073741821) } } else { if i < 15 { (28, 268435435) } else { (28, 268435436) } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { (28, 268435437) } else { (28, 268435438) } } else { if i < 19 { (28, 268435439) } else { (28, 268435440) } } } else { if i < 22 { if i < 21 { (28, 268435441) } else { (28, 268435442) } } else { if i < 23 { (30, 1073741822) } else { (28, 268435443) } } } } else { if i < 28 { if i < 26 { if i < 25 { (28, 268435444) } else { (28, 268435445) } } else { if i < 27 { (28, 268435446) } else { (28, 268435447) } } } else { if i < 30 { if i < 29 { (28, 268435448) } else { (28, 268435449) } } else { if i < 31 { (28, 268435450) } else { (28, 268435451) } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { (6, 20) } else { (10, 1016) } } else { if i < 35 { (10, 1017) } else { (12, 4090) } } } else { if i < 38 { if i < 37 { (13, 8185) } else { (6, 21) } } else { if i < 39 { (8, 248) } else { (11, 2042) } } } } else { if i < 44 { if i < 42 { if i < 41 { (10, 1018) } else { (10, 1019) } } else { if i < 43 { (8, 249) } else { (11, 2043) } } } else { if i < 46 { if i < 45 { (8, 250) } else { (6, 22) } } else { if i < 47 { (6, 23) } else { (6, 24) } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { (5, 0) } else { (5, 1) } } else { if i < 51 { (5, 2) } else { (6, 25) } } } else { if i < 54 { if i < 53 { (6, 26) } else { (6, 27) } } else { if i < 55 { (6, 28) } else { (6, 29) } } } } else { if i < 60 { if i < 58 { if i < 57 { (6, 30) } else { (6, 31) } } else { if i < 59 { (7, 92) } else { (8, 251) } } } else { if i < 62 { if i < 61 { (15, 32764) } else { (6, 32) } } else { if i < 63 { (12, 4091) } else { (10, 1020) } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { (13, 8186) } else { (6, 33) } } else { if i < 67 { (7, 93) } else { (7, 94) } } } else { if i < 70 { if i < 69 { (7, 95) } else { (7, 96) } } else { if i < 71 { (7, 97) } else { (7, 98) } } } } else { if i < 76 { if i < 74 { if i < 73 { (7, 99) } else { (7, 100) } } else { if i < 75 { (7, 101) } else { (7, 102) } } } else { if i < 78 { if i < 77 { (7, 103) } else { (7, 104) } } else { if i < 79 { (7, 105) } else { (7, 106) } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { (7, 107) } else { (7, 108) } } else { if i < 83 { (7, 109) } else { (7, 110) } } } else { if i < 86 { if i < 85 { (7, 111) } else { (7, 112) } } else { if i < 87 { (7, 113) } else { (7, 114) } } } } else { if i < 92 { if i < 90 { if i < 89 { (8, 252) } else { (7, 115) } } else { if i < 91 { (8, 253) } else { (13, 8187) } } } else { if i < 94 { if i < 93 { (19, 524272) } else { (13, 8188) } } else { if i < 95 { (14, 16380) } else { (6, 34) } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { (15, 32765) } else { (5, 3) } } else { if i < 99 { (6, 35) } else { (5, 4) } } } else { if i < 102 { if i < 101 { (6, 36) } else { (5, 5) } } else { if i < 103 { (6, 37) } else { (6, 38) } } } } else { if i < 108 { if i < 106 { if i < 105 { (6, 39) } else { (5, 6) } } else { if i < 107 { (7, 116) } else { (7, 117) } } } else { if i < 110 { if i < 109 { (6, 40) } else { (6, 41) } } else { if i < 111 { (6, 42) } else { (5, 7) } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { (6, 43) } else { (7, 118) } } else { if i < 115 { (6, 44) } else { (5, 8) } } } else { if i < 118 { if i < 117 { (5, 9) } else { (6, 45) } } else { if i < 119 { (7, 119) } else { (7, 120) } } } } else { if i < 124 { if i < 122 { if i < 121 { (7, 121) } else { (7, 122) } } else { if i < 123 { (7, 123) } else { (15, 32766) } } } else { if i < 126 { if i < 125 { (11, 2044) } else { (14, 16381) } } else { if i < 127 { (13, 8189) } else { (28, 268435452) } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { (20, 1048550) } else { (22, 4194258) } } else { if i < 131 { (20, 1048551) } else { (20, 1048552) } } } else { if i < 134 { if i < 133 { (22, 4194259) } else { (22, 4194260) } } else { if i < 135 { (22, 4194261) } else { (23, 8388569) } } } } else { if i < 140 { if i < 138 { if i < 137 { (22, 4194262) } else { (23, 8388570) } } else { if i < 139 { (23, 8388571) } else { (23, 8388572) } } } else { if i < 142 { if i < 141 { (23, 8388573) } else { (23, 8388574) } } else { if i < 143 { (24, 16777195) } else { (23, 8388575) } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { (24, 16777196) } else { (24, 16777197) } } else { if i < 147 { (22, 4194263) } else { (23, 8388576) } } } else { if i < 150 { if i < 149 { (24, 16777198) } else { (23, 8388577) } } else { if i < 151 { (23, 8388578) } else { (23, 8388579) } } } } else { if i < 156 { if i < 154 { if i < 153 { (23, 8388580) } else { (21, 2097116) } } else { if i < 155 { (22, 4194264) } else { (23, 8388581) } } } else { if i < 158 { if i < 157 { (22, 4194265) } else { (23, 8388582) } } else { if i < 159 { (23, 8388583) } else { (24, 16777199) } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { (22, 4194266) } else { (21, 2097117) } } else { if i < 163 { (20, 1048553) } else { (22, 4194267) } } } else { if i < 166 { if i < 165 { (22, 4194268) } else { (23, 8388584) } } else { if i < 167 { (23, 8388585) } else { (21, 2097118) } } } } else { if i < 172 { if i < 170 { if i < 169 { (23, 8388586) } else { (22, 4194269) } } else { if i < 171 { (22, 4194270) } else { (24, 16777200) } } } else { if i < 174 { if i < 173 { (21, 2097119) } else { (22, 4194271) } } else { if i < 175 { (23, 8388587) } else { (23, 8388588) } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { (21, 2097120) } else { (21, 2097121) } } else { if i < 179 { (22, 4194272) } else { (21, 2097122) } } } else { if i < 182 { if i < 181 { (23, 8388589) } else { (22, 4194273) } } else { if i < 183 { (23, 8388590) } else { (23, 8388591) } } } } else { if i < 188 { if i < 186 { if i < 185 { (20, 1048554) } else { (22, 4194274) } } else { if i < 187 { (22, 4194275) } else { (22, 4194276) } } } else { if i < 190 { if i < 189 { (23, 8388592) } else { (22, 4194277) } } else { if i < 191 { (22, 4194278) } else { (23, 8388593) } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { (26, 67108832) } else { (26, 67108833) } } else { if i < 195 { (20, 1048555) } else { (19, 524273) } } } else { if i < 198 { if i < 197 { (22, 4194279) } else { (23, 8388594) } } else { if i < 199 { (22, 4194280) } else { (25, 33554412) } } } } else { if i < 204 { if i < 202 { if i < 201 { (26, 67108834) } else { (26, 67108835) } } else { if i < 203 { (26, 67108836) } else { (27, 134217694) } } } else { if i < 206 { if i < 205 { (27, 134217695) } else { (26, 67108837) } } else { if i < 207 { (24, 16777201) } else { (25, 33554413) } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { (19, 524274) } else { (21, 2097123) } } else { if i < 211 { (26, 67108838) } else { (27, 134217696) } } } else { if i < 214 { if i < 213 { (27, 134217697) } else { (26, 67108839) } } else { if i < 215 { (27, 134217698) } else { (24, 16777202) } } } } else { if i < 220 { if i < 218 { if i < 217 { (21, 2097124) } else { (21, 2097125) } } else { if i < 219 { (26, 67108840) } else { (26, 67108841) } } } else { if i < 222 { if i < 221 { (28, 268435453) } else { (27, 134217699) } } else { if i < 223 { (27, 134217700) } else { (27, 134217701) } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { (20, 1048556) } else { (24, 16777203) } } else { if i < 227 { (20, 1048557) } else { (21, 2097126) } } } else { if i < 230 { if i < 229 { (22, 4194281) } else { (21, 2097127) } } else { if i < 231 { (21, 2097128) } else { (23, 8388595) } } } } else { if i < 236 { if i < 234 { if i < 233 { (22, 4194282) } else { (22, 4194283) } } else { if i < 235 { (25, 33554414) } else { (25, 33554415) } } } else { if i < 238 { if i < 237 { (24, 16777204) } else { (24, 16777205) } } else { if i < 239 { (26, 67108842) } else { (23, 8388596) } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { (26, 67108843) } else { (27, 134217702) } } else { if i < 243 { (26, 67108844) } else { (26, 67108845) } } } else { if i < 246 { if i < 245 { (27, 134217703) } else { (27, 134217704) } } else { if i < 247 { (27, 134217705) } else { (27, 134217706) } } } } else { if i < 252 { if i < 250 { if i < 249 { (27, 134217707) } else { (28, 268435454) } } else { if i < 251 { (27, 134217708) } else { (27, 134217709) } } } else { if i < 254 { if i < 253 { (27, 134217710) } else { (27, 134217711) } } else { if i < 255 { (27, 134217712) } else { if i < 256 { (26, 67108846) } else { (30, 1073741823) } } } } } } } } } }
// The codes in the order of their bits: hints, checked by lemma_facts.
#[verifier::opaque]
pub open spec fn sorted(i: int) -> int { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 48 } else { 49 } } else { if i < 3 { 50 } else { 97 } } } else { if i < 6 { if i < 5 { 99 } else { 101 } } else { if i < 7 { 105 } else { 111 } } } } else { if i < 12 { if i < 10 { if i < 9 { 115 } else { 116 } } else { if i < 11 { 32 } else { 37 } } } else { if i < 14 { if i < 13 { 45 } else { 46 } } else { if i < 15 { 47 } else { 51 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 52 } else { 53 } } else { if i < 19 { 54 } else { 55 } } } else { if i < 22 { if i < 21 { 56 } else { 57 } } else { if i < 23 { 61 } else { 65 } } } } else { if i < 28 { if i < 26 { if i < 25 { 95 } else { 98 } } else { if i < 27 { 100 } else { 102 } } } else { if i < 30 { if i < 29 { 103 } else { 104 } } else { if i < 31 { 108 } else { 109 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 110 } else { 112 } } else { if i < 35 { 114 } else { 117 } } } else { if i < 38 { if i < 37 { 58 } else { 66 } } else { if i < 39 { 67 } else { 68 } } } } else { if i < 44 { if i < 42 { if i < 41 { 69 } else { 70 } } else { if i < 43 { 71 } else { 72 } } } else { if i < 46 { if i < 45 { 73 } else { 74 } } else { if i < 47 { 75 } else { 76 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 77 } else { 78 } } else { if i < 51 { 79 } else { 80 } } } else { if i < 54 { if i < 53 { 81 } else { 82 } } else { if i < 55 { 83 } else { 84 } } } } else { if i < 60 { if i < 58 { if i < 57 { 85 } else { 86 } } else { if i < 59 { 87 } else { 89 } } } else { if i < 62 { if i < 61 { 106 } else { 107 } } else { if i < 63 { 113 } else { 118 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 119 } else { 120 } } else { if i < 67 { 121 } else { 122 } } } else { if i < 70 { if i < 69 { 38 } else { 42 } } else { if i < 71 { 44 } else { 59 } } } } else { if i < 76 { if i < 74 { if i < 73 { 88 } else { 90 } } else { if i < 75 { 33 } else { 34 } } } else { if i < 78 { if i < 77 { 40 } else { 41 } } else { if i < 79 { 63 } else { 39 } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { 43 } else { 124 } } else { if i < 83 { 35 } else { 62 } } } else { if i < 86 { if i < 85 { 0 } else { 36 } } else { if i < 87 { 64 } else { 91 } } } } else { if i < 92 { if i < 90 { if i < 89 { 93 } else { 126 } } else { if i < 91 { 94 } else { 125 } } } else { if i < 94 { if i < 93 { 60 } else { 96 } } else { if i < 95 { 123 } else { 92 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 195 } else { 208 } } else { if i < 99 { 128 } else { 130 } } } else { if i < 102 { if i < 101 { 131 } else { 162 } } else { if i < 103 { 184 } else { 194 } } } } else { if i < 108 { if i < 106 { if i < 105 { 224 } else { 226 } } else { if i < 107 { 153 } else { 161 } } } else { if i < 110 { if i < 109 { 167 } else { 172 } } else { if i < 111 { 176 } else { 177 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 179 } else { 209 } } else { if i < 115 { 216 } else { 217 } } } else { if i < 118 { if i < 117 { 227 } else { 229 } } else { if i < 119 { 230 } else { 129 } } } } else { if i < 124 { if i < 122 { if i < 121 { 132 } else { 133 } } else { if i < 123 { 134 } else { 136 } } } else { if i < 126 { if i < 125 { 146 } else { 154 } } else { if i < 127 { 156 } else { 160 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 163 } else { 164 } } else { if i < 131 { 169 } else { 170 } } } else { if i < 134 { if i < 133 { 173 } else { 178 } } else { if i < 135 { 181 } else { 185 } } } } else { if i < 140 { if i < 138 { if i < 137 { 186 } else { 187 } } else { if i < 139 { 189 } else { 190 } } } else { if i < 142 { if i < 141 { 196 } else { 198 } } else { if i < 143 { 228 } else { 232 } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { 233 } else { 1 } } else { if i < 147 { 135 } else { 137 } } } else { if i < 150 { if i < 149 { 138 } else { 139 } } else { if i < 151 { 140 } else { 141 } } } } else { if i < 156 { if i < 154 { if i < 153 { 143 } else { 147 } } else { if i < 155 { 149 } else { 150 } } } else { if i < 158 { if i < 157 { 151 } else { 152 } } else { if i < 159 { 155 } else { 157 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 158 } else { 165 } } else { if i < 163 { 166 } else { 168 } } } else { if i < 166 { if i < 165 { 174 } else { 175 } } else { if i < 167 { 180 } else { 182 } } } } else { if i < 172 { if i < 170 { if i < 169 { 183 } else { 188 } } else { if i < 171 { 191 } else { 197 } } } else { if i < 174 { if i < 173 { 231 } else { 239 } } else { if i < 175 { 9 } else { 142 } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { 144 } else { 145 } } else { if i < 179 { 148 } else { 159 } } } else { if i < 182 { if i < 181 { 171 } else { 206 } } else { if i < 183 { 215 } else { 225 } } } } else { if i < 188 { if i < 186 { if i < 185 { 236 } else { 237 } } else { if i < 187 { 199 } else { 207 } } } else { if i < 190 { if i < 189 { 234 } else { 235 } } else { if i < 191 { 192 } else { 193 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { 200 } else { 201 } } else { if i < 195 { 202 } else { 205 } } } else { if i < 198 { if i < 197 { 210 } else { 213 } } else { if i < 199 { 218 } else { 219 } } } } else { if i < 204 { if i < 202 { if i < 201 { 238 } else { 240 } } else { if i < 203 { 242 } else { 243 } } } else { if i < 206 { if i < 205 { 255 } else { 203 } } else { if i < 207 { 204 } else { 211 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 212 } else { 214 } } else { if i < 211 { 221 } else { 222 } } } else { if i < 214 { if i < 213 { 223 } else { 241 } } else { if i < 215 { 244 } else { 245 } } } } else { if i < 220 { if i < 218 { if i < 217 { 246 } else { 247 } } else { if i < 219 { 248 } else { 250 } } } else { if i < 222 { if i < 221 { 251 } else { 252 } } else { if i < 223 { 253 } else { 254 } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 2 } else { 3 } } else { if i < 227 { 4 } else { 5 } } } else { if i < 230 { if i < 229 { 6 } else { 7 } } else { if i < 231 { 8 } else { 11 } } } } else { if i < 236 { if i < 234 { if i < 233 { 12 } else { 14 } } else { if i < 235 { 15 } else { 16 } } } else { if i < 238 { if i < 237 { 17 } else { 18 } } else { if i < 239 { 19 } else { 20 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 21 } else { 23 } } else { if i < 243 { 24 } else { 25 } } } else { if i < 246 { if i < 245 { 26 } else { 27 } } else { if i < 247 { 28 } else { 29 } } } } else { if i < 252 { if i < 250 { if i < 249 { 30 } else { 31 } } else { if i < 251 { 127 } else { 220 } } } else { if i < 254 { if i < 253 { 249 } else { 10 } } else { if i < 255 { 13 } else { if i < 256 { 22 } else { 256 } } } } } } } } } }
#[verifier::opaque]
pub open spec fn rank(i: int) -> int { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 84 } else { 145 } } else { if i < 3 { 224 } else { 225 } } } else { if i < 6 { if i < 5 { 226 } else { 227 } } else { if i < 7 { 228 } else { 229 } } } } else { if i < 12 { if i < 10 { if i < 9 { 230 } else { 174 } } else { if i < 11 { 253 } else { 231 } } } else { if i < 14 { if i < 13 { 232 } else { 254 } } else { if i < 15 { 233 } else { 234 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 235 } else { 236 } } else { if i < 19 { 237 } else { 238 } } } else { if i < 22 { if i < 21 { 239 } else { 240 } } else { if i < 23 { 255 } else { 241 } } } } else { if i < 28 { if i < 26 { if i < 25 { 242 } else { 243 } } else { if i < 27 { 244 } else { 245 } } } else { if i < 30 { if i < 29 { 246 } else { 247 } } else { if i < 31 { 248 } else { 249 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 10 } else { 74 } } else { if i < 35 { 75 } else { 82 } } } else { if i < 38 { if i < 37 { 85 } else { 11 } } else { if i < 39 { 68 } else { 79 } } } } else { if i < 44 { if i < 42 { if i < 41 { 76 } else { 77 } } else { if i < 43 { 69 } else { 80 } } } else { if i < 46 { if i < 45 { 70 } else { 12 } } else { if i < 47 { 13 } else { 14 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 0 } else { 1 } } else { if i < 51 { 2 } else { 15 } } } else { if i < 54 { if i < 53 { 16 } else { 17 } } else { if i < 55 { 18 } else { 19 } } } } else { if i < 60 { if i < 58 { if i < 57 { 20 } else { 21 } } else { if i < 59 { 36 } else { 71 } } } else { if i < 62 { if i < 61 { 92 } else { 22 } } else { if i < 63 { 83 } else { 78 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 86 } else { 23 } } else { if i < 67 { 37 } else { 38 } } } else { if i < 70 { if i < 69 { 39 } else { 40 } } else { if i < 71 { 41 } else { 42 } } } } else { if i < 76 { if i < 74 { if i < 73 { 43 } else { 44 } } else { if i < 75 { 45 } else { 46 } } } else { if i < 78 { if i < 77 { 47 } else { 48 } } else { if i < 79 { 49 } else { 50 } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { 51 } else { 52 } } else { if i < 83 { 53 } else { 54 } } } else { if i < 86 { if i < 85 { 55 } else { 56 } } else { if i < 87 { 57 } else { 58 } } } } else { if i < 92 { if i < 90 { if i < 89 { 72 } else { 59 } } else { if i < 91 { 73 } else { 87 } } } else { if i < 94 { if i < 93 { 95 } else { 88 } } else { if i < 95 { 90 } else { 24 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 93 } else { 3 } } else { if i < 99 { 25 } else { 4 } } } else { if i < 102 { if i < 101 { 26 } else { 5 } } else { if i < 103 { 27 } else { 28 } } } } else { if i < 108 { if i < 106 { if i < 105 { 29 } else { 6 } } else { if i < 107 { 60 } else { 61 } } } else { if i < 110 { if i < 109 { 30 } else { 31 } } else { if i < 111 { 32 } else { 7 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 33 } else { 62 } } else { if i < 115 { 34 } else { 8 } } } else { if i < 118 { if i < 117 { 9 } else { 35 } } else { if i < 119 { 63 } else { 64 } } } } else { if i < 124 { if i < 122 { if i < 121 { 65 } else { 66 } } else { if i < 123 { 67 } else { 94 } } } else { if i < 126 { if i < 125 { 81 } else { 91 } } else { if i < 127 { 89 } else { 250 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 98 } else { 119 } } else { if i < 131 { 99 } else { 100 } } } else { if i < 134 { if i < 133 { 120 } else { 121 } } else { if i < 135 { 122 } else { 146 } } } } else { if i < 140 { if i < 138 { if i < 137 { 123 } else { 147 } } else { if i < 139 { 148 } else { 149 } } } else { if i < 142 { if i < 141 { 150 } else { 151 } } else { if i < 143 { 175 } else { 152 } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { 176 } else { 177 } } else { if i < 147 { 124 } else { 153 } } } else { if i < 150 { if i < 149 { 178 } else { 154 } } else { if i < 151 { 155 } else { 156 } } } } else { if i < 156 { if i < 154 { if i < 153 { 157 } else { 106 } } else { if i < 155 { 125 } else { 158 } } } else { if i < 158 { if i < 157 { 126 } else { 159 } } else { if i < 159 { 160 } else { 179 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 127 } else { 107 } } else { if i < 163 { 101 } else { 128 } } } else { if i < 166 { if i < 165 { 129 } else { 161 } } else { if i < 167 { 162 } else { 108 } } } } else { if i < 172 { if i < 170 { if i < 169 { 163 } else { 130 } } else { if i < 171 { 131 } else { 180 } } } else { if i < 174 { if i < 173 { 109 } else { 132 } } else { if i < 175 { 164 } else { 165 } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { 110 } else { 111 } } else { if i < 179 { 133 } else { 112 } } } else { if i < 182 { if i < 181 { 166 } else { 134 } } else { if i < 183 { 167 } else { 168 } } } } else { if i < 188 { if i < 186 { if i < 185 { 102 } else { 135 } } else { if i < 187 { 136 } else { 137 } } } else { if i < 190 { if i < 189 { 169 } else { 138 } } else { if i < 191 { 139 } else { 170 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { 190 } else { 191 } } else { if i < 195 { 103 } else { 96 } } } else { if i < 198 { if i < 197 { 140 } else { 171 } } else { if i < 199 { 141 } else { 186 } } } } else { if i < 204 { if i < 202 { if i < 201 { 192 } else { 193 } } else { if i < 203 { 194 } else { 205 } } } else { if i < 206 { if i < 205 { 206 } else { 195 } } else { if i < 207 { 181 } else { 187 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 97 } else { 113 } } else { if i < 211 { 196 } else { 207 } } } else { if i < 214 { if i < 213 { 208 } else { 197 } } else { if i < 215 { 209 } else { 182 } } } } else { if i < 220 { if i < 218 { if i < 217 { 114 } else { 115 } } else { if i < 219 { 198 } else { 199 } } } else { if i < 222 { if i < 221 { 251 } else { 210 } } else { if i < 223 { 211 } else { 212 } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 104 } else { 183 } } else { if i < 227 { 105 } else { 116 } } } else { if i < 230 { if i < 229 { 142 } else { 117 } } else { if i < 231 { 118 } else { 172 } } } } else { if i < 236 { if i < 234 { if i < 233 { 143 } else { 144 } } else { if i < 235 { 188 } else { 189 } } } else { if i < 238 { if i < 237 { 184 } else { 185 } } else { if i < 239 { 200 } else { 173 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 201 } else { 213 } } else { if i < 243 { 202 } else { 203 } } } else { if i < 246 { if i < 245 { 214 } else { 215 } } else { if i < 247 { 216 } else { 217 } } } } else { if i < 252 { if i < 250 { if i < 249 { 218 } else { 252 } } else { if i < 251 { 219 } else { 220 } } } else { if i < 254 { if i < 253 { 221 } else { 222 } } else { if i < 255 { 223 } else { if i < 256 { 204 } else { 256 } } } } } } } } } }
#[verifier::opaque]
pub open spec fn path1(i: int) -> (int, int, int, bool) { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { (0, 0, 48, true) } else { (1, 1, 61, true) } } else { if i < 3 { (2, 3, 69, true) } else { (3, 7, 85, true) } } } else { if i < 6 { if i < 5 { (4, 15, 119, true) } else { (5, 31, 38, true) } } else { if i < 7 { (6, 63, 88, true) } else { (7, 127, 33, true) } } } } else { if i < 12 { if i < 10 { if i < 9 { (8, 255, 63, true) } else { (9, 511, 124, true) } } else { if i < 11 { (10, 1023, 0, true) } else { (11, 2046, 0, true) } } } else { if i < 14 { if i < 13 { (12, 4092, 0, true) } else { (11, 2047, 93, true) } } else { if i < 15 { (12, 4095, 94, true) } else { (13, 8191, 60, true) } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { (14, 16383, 123, true) } else { (15, 32767, 92, true) } } else { if i < 19 { (16, 65535, 176, true) } else { (17, 131071, 178, true) } } } else { if i < 22 { if i < 21 { (18, 262142, 178, true) } else { (19, 524285, 198, true) } } else { if i < 23 { (20, 1048571, 1, true) } else { (21, 2097142, 1, true) } } } } else { if i < 28 { if i < 26 { if i < 25 { (22, 4194284, 1, true) } else { (18, 262143, 147, true) } } else { if i < 27 { (19, 524287, 188, true) } else { (20, 1048575, 171, true) } } } else { if i < 30 { if i < 29 { (21, 2097151, 192, true) } else { (22, 4194303, 211, true) } } else { if i < 31 { (23, 8388607, 254, true) } else { (24, 16777214, 254, true) } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { (25, 33554428, 254, true) } else { (26, 67108856, 254, true) } } else { if i < 35 { (27, 134217713, 2, true) } else { (26, 67108857, 4, true) } } } else { if i < 38 { if i < 37 { (27, 134217714, 4, true) } else { (27, 134217715, 6, true) } } else { if i < 39 { (25, 33554429, 8, true) } else { (26, 67108858, 8, true) } } } } else { if i < 44 { if i < 42 { if i < 41 { (27, 134217716, 8, true) } else { (20, 1048574, 188, true) } } else { if i < 43 { (21, 2097149, 239, true) } else { (22, 4194298, 239, true) } } } else { if i < 46 { if i < 45 { (23, 8388597, 9, true) } else { (24, 16777215, 19, true) } } else { if i < 47 { (25, 33554431, 28, true) } else { (26, 67108863, 127, true) } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { (27, 134217727, 249, true) } else { (28, 268435455, 10, true) } } else { if i < 51 { (29, 536870910, 10, true) } else { (27, 134217717, 12, true) } } } else { if i < 54 { if i < 53 { (26, 67108859, 15, true) } else { (27, 134217718, 15, true) } } else { if i < 55 { (27, 134217719, 17, true) } else { (25, 33554430, 19, true) } } } } else { if i < 60 { if i < 58 { if i < 57 { (26, 67108860, 19, true) } else { (27, 134217720, 19, true) } } else { if i < 59 { (27, 134217721, 21, true) } else { (29, 536870911, 22, true) } } } else { if i < 62 { if i < 61 { (26, 67108861, 24, true) } else { (27, 134217722, 24, true) } } else { if i < 63 { (27, 134217723, 26, true) } else { (26, 67108862, 28, true) } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { (27, 134217724, 28, true) } else { (27, 134217725, 30, true) } } else { if i < 67 { (1, 0, 48, true) } else { (2, 1, 115, true) } } } else { if i < 70 { if i < 69 { (3, 2, 115, true) } else { (4, 5, 32, true) } } else { if i < 71 { (5, 10, 32, true) } else { (8, 254, 33, true) } } } } else { if i < 76 { if i < 74 { if i < 73 { (9, 508, 33, true) } else { (10, 1022, 124, true) } } else { if i < 75 { (11, 2045, 35, true) } else { (6, 62, 38, true) } } } else { if i < 78 { if i < 77 { (7, 124, 38, true) } else { (9, 510, 63, true) } } else { if i < 79 { (10, 1021, 39, true) } else { (9, 509, 40, true) } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { (7, 125, 44, true) } else { (5, 11, 45, true) } } else { if i < 83 { (3, 3, 47, true) } else { (4, 6, 47, true) } } } else { if i < 86 { if i < 85 { (5, 12, 47, true) } else { (2, 0, 48, true) } } else { if i < 87 { (3, 0, 48, true) } else { (4, 0, 48, true) } } } } else { if i < 92 { if i < 90 { if i < 89 { (4, 1, 50, true) } else { (5, 13, 52, true) } } else { if i < 91 { (4, 7, 54, true) } else { (5, 14, 54, true) } } } else { if i < 94 { if i < 93 { (5, 15, 56, true) } else { (2, 2, 61, true) } } else { if i < 95 { (3, 5, 108, true) } else { (4, 11, 114, true) } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { (5, 23, 58, true) } else { (6, 46, 58, true) } } else { if i < 99 { (14, 16382, 60, true) } else { (3, 4, 61, true) } } } else { if i < 102 { if i < 101 { (4, 8, 61, true) } else { (5, 16, 61, true) } } else { if i < 103 { (12, 4093, 64, true) } else { (6, 47, 67, true) } } } } else { if i < 108 { if i < 106 { if i < 105 { (3, 6, 69, true) } else { (4, 12, 69, true) } } else { if i < 107 { (5, 24, 69, true) } else { (6, 48, 69, true) } } } else { if i < 110 { if i < 109 { (6, 49, 71, true) } else { (5, 25, 73, true) } } else { if i < 111 { (6, 50, 73, true) } else { (6, 51, 75, true) } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { (4, 13, 77, true) } else { (5, 26, 77, true) } } else { if i < 115 { (6, 52, 77, true) } else { (6, 53, 79, true) } } } else { if i < 118 { if i < 117 { (5, 27, 81, true) } else { (6, 54, 81, true) } } else { if i < 119 { (6, 55, 83, true) } else { (4, 14, 85, true) } } } } else { if i < 124 { if i < 122 { if i < 121 { (5, 28, 85, true) } else { (6, 56, 85, true) } } else { if i < 123 { (6, 57, 87, true) } else { (7, 126, 88, true) } } } else { if i < 126 { if i < 125 { (16, 65534, 92, true) } else { (17, 131068, 92, true) } } else { if i < 127 { (18, 262136, 92, true) } else { (12, 4094, 93, true) } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { (13, 8190, 94, true) } else { (5, 17, 95, true) } } else { if i < 131 { (3, 1, 99, true) } else { (4, 2, 99, true) } } } else { if i < 134 { if i < 133 { (4, 9, 100, true) } else { (5, 18, 100, true) } } else { if i < 135 { (5, 19, 103, true) } else { (4, 3, 105, true) } } } } else { if i < 140 { if i < 138 { if i < 137 { (5, 29, 106, true) } else { (6, 58, 106, true) } } else { if i < 139 { (4, 10, 108, true) } else { (5, 20, 108, true) } } } else { if i < 142 { if i < 141 { (5, 21, 110, true) } else { (6, 59, 113, true) } } else { if i < 143 { (5, 22, 114, true) } else { (4, 4, 115, true) } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { (5, 30, 119, true) } else { (6, 60, 119, true) } } else { if i < 147 { (6, 61, 121, true) } else { (27, 134217726, 127, true) } } } else { if i < 150 { if i < 149 { (18, 262137, 208, true) } else { (19, 524275, 128, true) } } else { if i < 151 { (17, 131070, 176, true) } else { (18, 262141, 230, true) } } } } else { if i < 156 { if i < 154 { if i < 153 { (19, 524282, 230, true) } else { (20, 1048564, 230, true) } } else { if i < 155 { (21, 2097129, 129, true) } else { (17, 131069, 131, true) } } } else { if i < 158 { if i < 157 { (18, 262138, 131, true) } else { (19, 524276, 131, true) } } else { if i < 159 { (20, 1048565, 133, true) } else { (21, 2097130, 133, true) } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { (21, 2097131, 136, true) } else { (22, 4194285, 137, true) } } else { if i < 163 { (21, 2097143, 139, true) } else { (22, 4194286, 139, true) } } } else { if i < 166 { if i < 165 { (22, 4194287, 141, true) } else { (22, 4194299, 144, true) } } else { if i < 167 { (23, 8388598, 144, true) } else { (19, 524286, 147, true) } } } } else { if i < 172 { if i < 170 { if i < 169 { (20, 1048572, 147, true) } else { (21, 2097144, 147, true) } } else { if i < 171 { (22, 4194288, 147, true) } else { (23, 8388599, 148, true) } } } else { if i < 174 { if i < 173 { (22, 4194289, 150, true) } else { (21, 2097145, 152, true) } } else { if i < 175 { (22, 4194290, 152, true) } else { (18, 262139, 224, true) } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { (19, 524279, 153, true) } else { (20, 1048558, 153, true) } } else { if i < 179 { (19, 524283, 154, true) } else { (20, 1048566, 154, true) } } } else { if i < 182 { if i < 181 { (21, 2097132, 154, true) } else { (22, 4194291, 157, true) } } else { if i < 183 { (21, 2097133, 160, true) } else { (20, 1048567, 164, true) } } } } else { if i < 188 { if i < 186 { if i < 185 { (21, 2097134, 164, true) } else { (20, 1048573, 165, true) } } else { if i < 187 { (21, 2097146, 165, true) } else { (22, 4194292, 165, true) } } } else { if i < 190 { if i < 189 { (20, 1048559, 167, true) } else { (22, 4194293, 168, true) } } else { if i < 191 { (21, 2097135, 170, true) } else { (21, 2097150, 171, true) } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { (22, 4194300, 171, true) } else { (23, 8388600, 171, true) } } else { if i < 195 { (21, 2097147, 175, true) } else { (22, 4194294, 175, true) } } } else { if i < 198 { if i < 197 { (18, 262140, 176, true) } else { (19, 524280, 176, true) } } else { if i < 199 { (20, 1048560, 176, true) } else { (19, 524284, 178, true) } } } } else { if i < 204 { if i < 202 { if i < 201 { (20, 1048568, 178, true) } else { (21, 2097136, 178, true) } } else { if i < 203 { (20, 1048561, 179, true) } else { (22, 4194295, 182, true) } } } else { if i < 206 { if i < 205 { (19, 524277, 184, true) } else { (21, 2097137, 185, true) } } else { if i < 207 { (20, 1048569, 187, true) } else { (21, 2097138, 187, true) } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { (21, 2097148, 188, true) } else { (22, 4194296, 188, true) } } else { if i < 211 { (21, 2097139, 190, true) } else { (22, 4194302, 192, true) } } } else { if i < 214 { if i < 213 { (23, 8388604, 192, true) } else { (24, 16777208, 192, true) } } else { if i < 215 { (25, 33554416, 192, true) } else { (22, 4194297, 197, true) } } } } else { if i < 220 { if i < 218 { if i < 217 { (20, 1048570, 198, true) } else { (21, 2097140, 198, true) } } else { if i < 219 { (22, 4194301, 236, true) } else { (23, 8388603, 199, true) } } } else { if i < 222 { if i < 221 { (24, 16777206, 199, true) } else { (25, 33554417, 200, true) } } else { if i < 223 { (24, 16777209, 202, true) } else { (25, 33554418, 202, true) } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { (23, 8388605, 218, true) } else { (24, 16777211, 242, true) } } else { if i < 227 { (25, 33554423, 255, true) } else { (26, 67108847, 203, true) } } } else { if i < 230 { if i < 229 { (25, 33554419, 210, true) } else { (23, 8388606, 211, true) } } else { if i < 231 { (24, 16777212, 211, true) } else { (25, 33554424, 211, true) } } } } else { if i < 236 { if i < 234 { if i < 233 { (26, 67108848, 211, true) } else { (26, 67108849, 214, true) } } else { if i < 235 { (23, 8388601, 215, true) } else { (19, 524281, 216, true) } } } else { if i < 238 { if i < 237 { (20, 1048562, 216, true) } else { (24, 16777210, 218, true) } } else { if i < 239 { (25, 33554420, 218, true) } else { (25, 33554425, 222, true) } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { (26, 67108850, 222, true) } else { (19, 524278, 224, true) } } else { if i < 243 { (20, 1048563, 227, true) } else { (21, 2097141, 232, true) } } } else { if i < 246 { if i < 245 { (24, 16777207, 234, true) } else { (23, 8388602, 236, true) } } else { if i < 247 { (25, 33554421, 238, true) } else { (26, 67108851, 241, true) } } } } else { if i < 252 { if i < 250 { if i < 249 { (25, 33554422, 242, true) } else { (24, 16777213, 245, true) } } else { if i < 251 { (25, 33554426, 245, true) } else { (26, 67108852, 245, true) } } } else { if i < 254 { if i < 253 { (26, 67108853, 247, true) } else { (25, 33554427, 250, true) } } else { if i < 255 { (26, 67108854, 250, true) } else { (26, 67108855, 252, true) } } } } } } } } }
#[verifier::opaque]
pub open spec fn ent1(i: int, k: int) -> (Option<u8>, Option<u16>, u8) { crate::httlib_huffman::decoder::table1::DECODE_TABLE[i][k] }
pub open spec fn key1(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {
    match e {
        (_, Some(c), l) => sym_ok(1, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < 256 && next_ok(1, p, k, path1(j as int)),
        _ => false,
    }
}
pub open spec fn keys1(r: [(Option<u8>, Option<u16>, u8); 2], p: (int, int, int, bool), k: int) -> bool decreases k { k <= 0 || (key1(r[k - 1], p, k - 1) && keys1(r, p, k - 1)) }
#[verifier::opaque]
pub open spec fn row1(r: [(Option<u8>, Option<u16>, u8); 2], p: (int, int, int, bool)) -> bool { !p.3 || (row_ok(p) && keys1(r, p, 2)) }
proof fn lemma_keys1(r: [(Option<u8>, Option<u16>, u8); 2], p: (int, int, int, bool), m: int, k: int)
    requires keys1(r, p, m), 0 <= k < m
    ensures key1(r[k], p, k)
    decreases m
{ if k < m - 1 { lemma_keys1(r, p, m - 1, k); } }
// The shipped table of speed 1 leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table1(i: int, k: int)
    requires 0 <= i < 256, path1(i).3, 0 <= k < 2
    ensures row_ok(path1(i)), key1(ent1(i, k), path1(i), k)
{ reveal(ent1); reveal(row1); r1::lemma_rows1(i); lemma_keys1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[i], path1(i), 2, k); }
pub mod r1 {
use vstd::prelude::*; use crate::hspec::*; use super::*;
proof fn thm_table1_0() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[0], path1(0)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[0], path1(0))) by(compute_only); }
proof fn thm_table1_1() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[1], path1(1)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[1], path1(1))) by(compute_only); }
proof fn thm_table1_2() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[2], path1(2)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[2], path1(2))) by(compute_only); }
proof fn thm_table1_3() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[3], path1(3)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[3], path1(3))) by(compute_only); }
proof fn thm_table1_4() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[4], path1(4)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[4], path1(4))) by(compute_only); }
proof fn thm_table1_5() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[5], path1(5)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[5], path1(5))) by(compute_only); }
proof fn thm_table1_6() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[6], path1(6)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[6], path1(6))) by(compute_only); }
proof fn thm_table1_7() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[7], path1(7)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[7], path1(7))) by(compute_only); }
proof fn thm_table1_8() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[8], path1(8)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[8], path1(8))) by(compute_only); }
proof fn thm_table1_9() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[9], path1(9)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[9], path1(9))) by(compute_only); }
proof fn thm_table1_10() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[10], path1(10)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[10], path1(10))) by(compute_only); }
proof fn thm_table1_11() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[11], path1(11)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[11], path1(11))) by(compute_only); }
proof fn thm_table1_12() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[12], path1(12)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[12], path1(12))) by(compute_only); }
proof fn thm_table1_13() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[13], path1(13)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[13], path1(13))) by(compute_only); }
proof fn thm_table1_14() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[14], path1(14)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[14], path1(14))) by(compute_only); }
proof fn thm_table1_15() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[15], path1(15)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[15], path1(15))) by(compute_only); }
proof fn thm_table1_16() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[16], path1(16)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[16], path1(16))) by(compute_only); }
proof fn thm_table1_17() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[17], path1(17)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[17], path1(17))) by(compute_only); }
proof fn thm_table1_18() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[18], path1(18)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[18], path1(18))) by(compute_only); }
proof fn thm_table1_19() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[19], path1(19)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[19], path1(19))) by(compute_only); }
proof fn thm_table1_20() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[20], path1(20)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[20], path1(20))) by(compute_only); }
proof fn thm_table1_21() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[21], path1(21)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[21], path1(21))) by(compute_only); }
proof fn thm_table1_22() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[22], path1(22)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[22], path1(22))) by(compute_only); }
proof fn thm_table1_23() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[23], path1(23)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[23], path1(23))) by(compute_only); }
proof fn thm_table1_24() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[24], path1(24)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[24], path1(24))) by(compute_only); }
proof fn thm_table1_25() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[25], path1(25)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[25], path1(25))) by(compute_only); }
proof fn thm_table1_26() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[26], path1(26)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[26], path1(26))) by(compute_only); }
proof fn thm_table1_27() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[27], path1(27)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[27], path1(27))) by(compute_only); }
proof fn thm_table1_28() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[28], path1(28)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[28], path1(28))) by(compute_only); }
proof fn thm_table1_29() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[29], path1(29)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[29], path1(29))) by(compute_only); }
proof fn thm_table1_30() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[30], path1(30)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[30], path1(30))) by(compute_only); }
proof fn thm_table1_31() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[31], path1(31)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[31], path1(31))) by(compute_only); }
proof fn thm_table1_32() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[32], path1(32)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[32], path1(32))) by(compute_only); }
proof fn thm_table1_33() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[33], path1(33)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[33], path1(33))) by(compute_only); }
proof fn thm_table1_34() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[34], path1(34)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[34], path1(34))) by(compute_only); }
proof fn thm_table1_35() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[35], path1(35)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[35], path1(35))) by(compute_only); }
proof fn thm_table1_36() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[36], path1(36)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[36], path1(36))) by(compute_only); }
proof fn thm_table1_37() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[37], path1(37)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[37], path1(37))) by(compute_only); }
proof fn thm_table1_38() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[38], path1(38)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[38], path1(38))) by(compute_only); }
proof fn thm_table1_39() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[39], path1(39)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[39], path1(39))) by(compute_only); }
proof fn thm_table1_40() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[40], path1(40)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[40], path1(40))) by(compute_only); }
proof fn thm_table1_41() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[41], path1(41)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[41], path1(41))) by(compute_only); }
proof fn thm_table1_42() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[42], path1(42)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[42], path1(42))) by(compute_only); }
proof fn thm_table1_43() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[43], path1(43)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[43], path1(43))) by(compute_only); }
proof fn thm_table1_44() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[44], path1(44)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[44], path1(44))) by(compute_only); }
proof fn thm_table1_45() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[45], path1(45)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[45], path1(45))) by(compute_only); }
proof fn thm_table1_46() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[46], path1(46)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[46], path1(46))) by(compute_only); }
proof fn thm_table1_47() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[47], path1(47)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[47], path1(47))) by(compute_only); }
proof fn thm_table1_48() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[48], path1(48)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[48], path1(48))) by(compute_only); }
proof fn thm_table1_49() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[49], path1(49)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[49], path1(49))) by(compute_only); }
proof fn thm_table1_50() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[50], path1(50)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[50], path1(50))) by(compute_only); }
proof fn thm_table1_51() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[51], path1(51)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[51], path1(51))) by(compute_only); }
proof fn thm_table1_52() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[52], path1(52)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[52], path1(52))) by(compute_only); }
proof fn thm_table1_53() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[53], path1(53)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[53], path1(53))) by(compute_only); }
proof fn thm_table1_54() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[54], path1(54)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[54], path1(54))) by(compute_only); }
proof fn thm_table1_55() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[55], path1(55)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[55], path1(55))) by(compute_only); }
proof fn thm_table1_56() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[56], path1(56)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[56], path1(56))) by(compute_only); }
proof fn thm_table1_57() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[57], path1(57)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[57], path1(57))) by(compute_only); }
proof fn thm_table1_58() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[58], path1(58)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[58], path1(58))) by(compute_only); }
proof fn thm_table1_59() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[59], path1(59)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[59], path1(59))) by(compute_only); }
proof fn thm_table1_60() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[60], path1(60)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[60], path1(60))) by(compute_only); }
proof fn thm_table1_61() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[61], path1(61)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[61], path1(61))) by(compute_only); }
proof fn thm_table1_62() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[62], path1(62)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[62], path1(62))) by(compute_only); }
proof fn thm_table1_63() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[63], path1(63)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[63], path1(63))) by(compute_only); }
proof fn thm_table1_64() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[64], path1(64)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[64], path1(64))) by(compute_only); }
proof fn thm_table1_65() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[65], path1(65)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[65], path1(65))) by(compute_only); }
proof fn thm_table1_66() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[66], path1(66)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[66], path1(66))) by(compute_only); }
proof fn thm_table1_67() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[67], path1(67)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[67], path1(67))) by(compute_only); }
proof fn thm_table1_68() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[68], path1(68)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[68], path1(68))) by(compute_only); }
proof fn thm_table1_69() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[69], path1(69)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[69], path1(69))) by(compute_only); }
proof fn thm_table1_70() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[70], path1(70)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[70], path1(70))) by(compute_only); }
proof fn thm_table1_71() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[71], path1(71)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[71], path1(71))) by(compute_only); }
proof fn thm_table1_72() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[72], path1(72)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[72], path1(72))) by(compute_only); }
proof fn thm_table1_73() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[73], path1(73)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[73], path1(73))) by(compute_only); }
proof fn thm_table1_74() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[74], path1(74)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[74], path1(74))) by(compute_only); }
proof fn thm_table1_75() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[75], path1(75)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[75], path1(75))) by(compute_only); }
proof fn thm_table1_76() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[76], path1(76)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[76], path1(76))) by(compute_only); }
proof fn thm_table1_77() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[77], path1(77)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[77], path1(77))) by(compute_only); }
proof fn thm_table1_78() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[78], path1(78)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[78], path1(78))) by(compute_only); }
proof fn thm_table1_79() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[79], path1(79)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[79], path1(79))) by(compute_only); }
proof fn thm_table1_80() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[80], path1(80)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[80], path1(80))) by(compute_only); }
proof fn thm_table1_81() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[81], path1(81)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[81], path1(81))) by(compute_only); }
proof fn thm_table1_82() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[82], path1(82)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[82], path1(82))) by(compute_only); }
proof fn thm_table1_83() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[83], path1(83)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[83], path1(83))) by(compute_only); }
proof fn thm_table1_84() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[84], path1(84)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[84], path1(84))) by(compute_only); }
proof fn thm_table1_85() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[85], path1(85)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[85], path1(85))) by(compute_only); }
proof fn thm_table1_86() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[86], path1(86)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[86], path1(86))) by(compute_only); }
proof fn thm_table1_87() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[87], path1(87)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[87], path1(87))) by(compute_only); }
proof fn thm_table1_88() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[88], path1(88)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[88], path1(88))) by(compute_only); }
proof fn thm_table1_89() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[89], path1(89)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[89], path1(89))) by(compute_only); }
proof fn thm_table1_90() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[90], path1(90)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[90], path1(90))) by(compute_only); }
proof fn thm_table1_91() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[91], path1(91)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[91], path1(91))) by(compute_only); }
proof fn thm_table1_92() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[92], path1(92)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[92], path1(92))) by(compute_only); }
proof fn thm_table1_93() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[93], path1(93)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[93], path1(93))) by(compute_only); }
proof fn thm_table1_94() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[94], path1(94)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[94], path1(94))) by(compute_only); }
proof fn thm_table1_95() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[95], path1(95)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[95], path1(95))) by(compute_only); }
proof fn thm_table1_96() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[96], path1(96)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[96], path1(96))) by(compute_only); }
proof fn thm_table1_97() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[97], path1(97)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[97], path1(97))) by(compute_only); }
proof fn thm_table1_98() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[98], path1(98)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[98], path1(98))) by(compute_only); }
proof fn thm_table1_99() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[99], path1(99)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[99], path1(99))) by(compute_only); }
proof fn thm_table1_100() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[100], path1(100)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[100], path1(100))) by(compute_only); }
proof fn thm_table1_101() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[101], path1(101)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[101], path1(101))) by(compute_only); }
proof fn thm_table1_102() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[102], path1(102)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[102], path1(102))) by(compute_only); }
proof fn thm_table1_103() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[103], path1(103)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[103], path1(103))) by(compute_only); }
proof fn thm_table1_104() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[104], path1(104)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[104], path1(104))) by(compute_only); }
proof fn thm_table1_105() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[105], path1(105)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[105], path1(105))) by(compute_only); }
proof fn thm_table1_106() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[106], path1(106)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[106], path1(106))) by(compute_only); }
proof fn thm_table1_107() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[107], path1(107)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[107], path1(107))) by(compute_only); }
proof fn thm_table1_108() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[108], path1(108)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[108], path1(108))) by(compute_only); }
proof fn thm_table1_109() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[109], path1(109)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[109], path1(109))) by(compute_only); }
proof fn thm_table1_110() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[110], path1(110)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[110], path1(110))) by(compute_only); }
proof fn thm_table1_111() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[111], path1(111)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[111], path1(111))) by(compute_only); }
proof fn thm_table1_112() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[112], path1(112)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[112], path1(112))) by(compute_only); }
proof fn thm_table1_113() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[113], path1(113)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[113], path1(113))) by(compute_only); }
proof fn thm_table1_114() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[114], path1(114)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[114], path1(114))) by(compute_only); }
proof fn thm_table1_115() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[115], path1(115)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[115], path1(115))) by(compute_only); }
proof fn thm_table1_116() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[116], path1(116)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[116], path1(116))) by(compute_only); }
proof fn thm_table1_117() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[117], path1(117)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[117], path1(117))) by(compute_only); }
proof fn thm_table1_118() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[118], path1(118)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[118], path1(118))) by(compute_only); }
proof fn thm_table1_119() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[119], path1(119)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[119], path1(119))) by(compute_only); }
proof fn thm_table1_120() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[120], path1(120)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[120], path1(120))) by(compute_only); }
proof fn thm_table1_121() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[121], path1(121)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[121], path1(121))) by(compute_only); }
proof fn thm_table1_122() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[122], path1(122)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[122], path1(122))) by(compute_only); }
proof fn thm_table1_123() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[123], path1(123)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[123], path1(123))) by(compute_only); }
proof fn thm_table1_124() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[124], path1(124)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[124], path1(124))) by(compute_only); }
proof fn thm_table1_125() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[125], path1(125)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[125], path1(125))) by(compute_only); }
proof fn thm_table1_126() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[126], path1(126)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[126], path1(126))) by(compute_only); }
proof fn thm_table1_127() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[127], path1(127)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[127], path1(127))) by(compute_only); }
proof fn thm_table1_128() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[128], path1(128)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[128], path1(128))) by(compute_only); }
proof fn thm_table1_129() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[129], path1(129)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[129], path1(129))) by(compute_only); }
proof fn thm_table1_130() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[130], path1(130)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[130], path1(130))) by(compute_only); }
proof fn thm_table1_131() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[131], path1(131)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[131], path1(131))) by(compute_only); }
proof fn thm_table1_132() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[132], path1(132)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[132], path1(132))) by(compute_only); }
proof fn thm_table1_133() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[133], path1(133)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[133], path1(133))) by(compute_only); }
proof fn thm_table1_134() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[134], path1(134)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[134], path1(134))) by(compute_only); }
proof fn thm_table1_135() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[135], path1(135)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[135], path1(135))) by(compute_only); }
proof fn thm_table1_136() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[136], path1(136)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[136], path1(136))) by(compute_only); }
proof fn thm_table1_137() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[137], path1(137)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[137], path1(137))) by(compute_only); }
proof fn thm_table1_138() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[138], path1(138)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[138], path1(138))) by(compute_only); }
proof fn thm_table1_139() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[139], path1(139)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[139], path1(139))) by(compute_only); }
proof fn thm_table1_140() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[140], path1(140)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[140], path1(140))) by(compute_only); }
proof fn thm_table1_141() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[141], path1(141)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[141], path1(141))) by(compute_only); }
proof fn thm_table1_142() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[142], path1(142)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[142], path1(142))) by(compute_only); }
proof fn thm_table1_143() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[143], path1(143)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[143], path1(143))) by(compute_only); }
proof fn thm_table1_144() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[144], path1(144)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[144], path1(144))) by(compute_only); }
proof fn thm_table1_145() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[145], path1(145)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[145], path1(145))) by(compute_only); }
proof fn thm_table1_146() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[146], path1(146)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[146], path1(146))) by(compute_only); }
proof fn thm_table1_147() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[147], path1(147)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[147], path1(147))) by(compute_only); }
proof fn thm_table1_148() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[148], path1(148)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[148], path1(148))) by(compute_only); }
proof fn thm_table1_149() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[149], path1(149)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[149], path1(149))) by(compute_only); }
proof fn thm_table1_150() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[150], path1(150)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[150], path1(150))) by(compute_only); }
proof fn thm_table1_151() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[151], path1(151)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[151], path1(151))) by(compute_only); }
proof fn thm_table1_152() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[152], path1(152)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[152], path1(152))) by(compute_only); }
proof fn thm_table1_153() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[153], path1(153)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[153], path1(153))) by(compute_only); }
proof fn thm_table1_154() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[154], path1(154)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[154], path1(154))) by(compute_only); }
proof fn thm_table1_155() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[155], path1(155)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[155], path1(155))) by(compute_only); }
proof fn thm_table1_156() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[156], path1(156)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[156], path1(156))) by(compute_only); }
proof fn thm_table1_157() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[157], path1(157)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[157], path1(157))) by(compute_only); }
proof fn thm_table1_158() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[158], path1(158)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[158], path1(158))) by(compute_only); }
proof fn thm_table1_159() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[159], path1(159)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[159], path1(159))) by(compute_only); }
proof fn thm_table1_160() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[160], path1(160)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[160], path1(160))) by(compute_only); }
proof fn thm_table1_161() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[161], path1(161)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[161], path1(161))) by(compute_only); }
proof fn thm_table1_162() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[162], path1(162)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[162], path1(162))) by(compute_only); }
proof fn thm_table1_163() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[163], path1(163)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[163], path1(163))) by(compute_only); }
proof fn thm_table1_164() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[164], path1(164)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[164], path1(164))) by(compute_only); }
proof fn thm_table1_165() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[165], path1(165)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[165], path1(165))) by(compute_only); }
proof fn thm_table1_166() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[166], path1(166)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[166], path1(166))) by(compute_only); }
proof fn thm_table1_167() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[167], path1(167)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[167], path1(167))) by(compute_only); }
proof fn thm_table1_168() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[168], path1(168)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[168], path1(168))) by(compute_only); }
proof fn thm_table1_169() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[169], path1(169)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[169], path1(169))) by(compute_only); }
proof fn thm_table1_170() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[170], path1(170)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[170], path1(170))) by(compute_only); }
proof fn thm_table1_171() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[171], path1(171)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[171], path1(171))) by(compute_only); }
proof fn thm_table1_172() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[172], path1(172)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[172], path1(172))) by(compute_only); }
proof fn thm_table1_173() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[173], path1(173)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[173], path1(173))) by(compute_only); }
proof fn thm_table1_174() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[174], path1(174)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[174], path1(174))) by(compute_only); }
proof fn thm_table1_175() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[175], path1(175)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[175], path1(175))) by(compute_only); }
proof fn thm_table1_176() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[176], path1(176)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[176], path1(176))) by(compute_only); }
proof fn thm_table1_177() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[177], path1(177)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[177], path1(177))) by(compute_only); }
proof fn thm_table1_178() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[178], path1(178)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[178], path1(178))) by(compute_only); }
proof fn thm_table1_179() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[179], path1(179)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[179], path1(179))) by(compute_only); }
proof fn thm_table1_180() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[180], path1(180)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[180], path1(180))) by(compute_only); }
proof fn thm_table1_181() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[181], path1(181)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[181], path1(181))) by(compute_only); }
proof fn thm_table1_182() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[182], path1(182)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[182], path1(182))) by(compute_only); }
proof fn thm_table1_183() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[183], path1(183)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[183], path1(183))) by(compute_only); }
proof fn thm_table1_184() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[184], path1(184)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[184], path1(184))) by(compute_only); }
proof fn thm_table1_185() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[185], path1(185)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[185], path1(185))) by(compute_only); }
proof fn thm_table1_186() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[186], path1(186)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[186], path1(186))) by(compute_only); }
proof fn thm_table1_187() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[187], path1(187)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[187], path1(187))) by(compute_only); }
proof fn thm_table1_188() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[188], path1(188)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[188], path1(188))) by(compute_only); }
proof fn thm_table1_189() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[189], path1(189)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[189], path1(189))) by(compute_only); }
proof fn thm_table1_190() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[190], path1(190)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[190], path1(190))) by(compute_only); }
proof fn thm_table1_191() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[191], path1(191)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[191], path1(191))) by(compute_only); }
proof fn thm_table1_192() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[192], path1(192)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[192], path1(192))) by(compute_only); }
proof fn thm_table1_193() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[193], path1(193)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[193], path1(193))) by(compute_only); }
proof fn thm_table1_194() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[194], path1(194)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[194], path1(194))) by(compute_only); }
proof fn thm_table1_195() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[195], path1(195)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[195], path1(195))) by(compute_only); }
proof fn thm_table1_196() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[196], path1(196)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[196], path1(196))) by(compute_only); }
proof fn thm_table1_197() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[197], path1(197)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[197], path1(197))) by(compute_only); }
proof fn thm_table1_198() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[198], path1(198)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[198], path1(198))) by(compute_only); }
proof fn thm_table1_199() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[199], path1(199)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[199], path1(199))) by(compute_only); }
proof fn thm_table1_200() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[200], path1(200)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[200], path1(200))) by(compute_only); }
proof fn thm_table1_201() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[201], path1(201)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[201], path1(201))) by(compute_only); }
proof fn thm_table1_202() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[202], path1(202)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[202], path1(202))) by(compute_only); }
proof fn thm_table1_203() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[203], path1(203)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[203], path1(203))) by(compute_only); }
proof fn thm_table1_204() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[204], path1(204)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[204], path1(204))) by(compute_only); }
proof fn thm_table1_205() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[205], path1(205)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[205], path1(205))) by(compute_only); }
proof fn thm_table1_206() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[206], path1(206)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[206], path1(206))) by(compute_only); }
proof fn thm_table1_207() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[207], path1(207)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[207], path1(207))) by(compute_only); }
proof fn thm_table1_208() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[208], path1(208)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[208], path1(208))) by(compute_only); }
proof fn thm_table1_209() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[209], path1(209)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[209], path1(209))) by(compute_only); }
proof fn thm_table1_210() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[210], path1(210)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[210], path1(210))) by(compute_only); }
proof fn thm_table1_211() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[211], path1(211)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[211], path1(211))) by(compute_only); }
proof fn thm_table1_212() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[212], path1(212)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[212], path1(212))) by(compute_only); }
proof fn thm_table1_213() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[213], path1(213)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[213], path1(213))) by(compute_only); }
proof fn thm_table1_214() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[214], path1(214)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[214], path1(214))) by(compute_only); }
proof fn thm_table1_215() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[215], path1(215)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[215], path1(215))) by(compute_only); }
proof fn thm_table1_216() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[216], path1(216)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[216], path1(216))) by(compute_only); }
proof fn thm_table1_217() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[217], path1(217)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[217], path1(217))) by(compute_only); }
proof fn thm_table1_218() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[218], path1(218)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[218], path1(218))) by(compute_only); }
proof fn thm_table1_219() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[219], path1(219)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[219], path1(219))) by(compute_only); }
proof fn thm_table1_220() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[220], path1(220)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[220], path1(220))) by(compute_only); }
proof fn thm_table1_221() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[221], path1(221)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[221], path1(221))) by(compute_only); }
proof fn thm_table1_222() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[222], path1(222)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[222], path1(222))) by(compute_only); }
proof fn thm_table1_223() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[223], path1(223)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[223], path1(223))) by(compute_only); }
proof fn thm_table1_224() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[224], path1(224)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[224], path1(224))) by(compute_only); }
proof fn thm_table1_225() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[225], path1(225)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[225], path1(225))) by(compute_only); }
proof fn thm_table1_226() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[226], path1(226)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[226], path1(226))) by(compute_only); }
proof fn thm_table1_227() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[227], path1(227)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[227], path1(227))) by(compute_only); }
proof fn thm_table1_228() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[228], path1(228)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[228], path1(228))) by(compute_only); }
proof fn thm_table1_229() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[229], path1(229)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[229], path1(229))) by(compute_only); }
proof fn thm_table1_230() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[230], path1(230)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[230], path1(230))) by(compute_only); }
proof fn thm_table1_231() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[231], path1(231)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[231], path1(231))) by(compute_only); }
proof fn thm_table1_232() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[232], path1(232)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[232], path1(232))) by(compute_only); }
proof fn thm_table1_233() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[233], path1(233)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[233], path1(233))) by(compute_only); }
proof fn thm_table1_234() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[234], path1(234)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[234], path1(234))) by(compute_only); }
proof fn thm_table1_235() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[235], path1(235)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[235], path1(235))) by(compute_only); }
proof fn thm_table1_236() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[236], path1(236)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[236], path1(236))) by(compute_only); }
proof fn thm_table1_237() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[237], path1(237)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[237], path1(237))) by(compute_only); }
proof fn thm_table1_238() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[238], path1(238)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[238], path1(238))) by(compute_only); }
proof fn thm_table1_239() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[239], path1(239)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[239], path1(239))) by(compute_only); }
proof fn thm_table1_240() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[240], path1(240)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[240], path1(240))) by(compute_only); }
proof fn thm_table1_241() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[241], path1(241)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[241], path1(241))) by(compute_only); }
proof fn thm_table1_242() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[242], path1(242)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[242], path1(242))) by(compute_only); }
proof fn thm_table1_243() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[243], path1(243)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[243], path1(243))) by(compute_only); }
proof fn thm_table1_244() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[244], path1(244)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[244], path1(244))) by(compute_only); }
proof fn thm_table1_245() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[245], path1(245)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[245], path1(245))) by(compute_only); }
proof fn thm_table1_246() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[246], path1(246)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[246], path1(246))) by(compute_only); }
proof fn thm_table1_247() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[247], path1(247)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[247], path1(247))) by(compute_only); }
proof fn thm_table1_248() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[248], path1(248)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[248], path1(248))) by(compute_only); }
proof fn thm_table1_249() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[249], path1(249)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[249], path1(249))) by(compute_only); }
proof fn thm_table1_250() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[250], path1(250)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[250], path1(250))) by(compute_only); }
proof fn thm_table1_251() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[251], path1(251)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[251], path1(251))) by(compute_only); }
proof fn thm_table1_252() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[252], path1(252)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[252], path1(252))) by(compute_only); }
proof fn thm_table1_253() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[253], path1(253)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[253], path1(253))) by(compute_only); }
proof fn thm_table1_254() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[254], path1(254)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[254], path1(254))) by(compute_only); }
proof fn thm_table1_255() ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[255], path1(255)) { reveal(crate::httlib_huffman::decoder::table1::DECODE_TABLE); reveal(rfc); reveal(path1); reveal(row1); assert(row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[255], path1(255))) by(compute_only); }
pub proof fn lemma_rows1(i: int) requires 0 <= i < 256, path1(i).3 ensures row1(crate::httlib_huffman::decoder::table1::DECODE_TABLE[i], path1(i))
{ reveal(path1); if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { thm_table1_0(); } else { thm_table1_1(); } } else { if i < 3 { thm_table1_2(); } else { thm_table1_3(); } } } else { if i < 6 { if i < 5 { thm_table1_4(); } else { thm_table1_5(); } } else { if i < 7 { thm_table1_6(); } else { thm_table1_7(); } } } } else { if i < 12 { if i < 10 { if i < 9 { thm_table1_8(); } else { thm_table1_9(); } } else { if i < 11 { thm_table1_10(); } else { thm_table1_11(); } } } else { if i < 14 { if i < 13 { thm_table1_12(); } else { thm_table1_13(); } } else { if i < 15 { thm_table1_14(); } else { thm_table1_15(); } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { thm_table1_16(); } else { thm_table1_17(); } } else { if i < 19 { thm_table1_18(); } else { thm_table1_19(); } } } else { if i < 22 { if i < 21 { thm_table1_20(); } else { thm_table1_21(); } } else { if i < 23 { thm_table1_22(); } else { thm_table1_23(); } } } } else { if i < 28 { if i < 26 { if i < 25 { thm_table1_24(); } else { thm_table1_25(); } } else { if i < 27 { thm_table1_26(); } else { thm_table1_27(); } } } else { if i < 30 { if i < 29 { thm_table1_28(); } else { thm_table1_29(); } } else { if i < 31 { thm_table1_30(); } else { thm_table1_31(); } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { thm_table1_32(); } else { thm_table1_33(); } } else { if i < 35 { thm_table1_34(); } else { thm_table1_35(); } } } else { if i < 38 { if i < 37 { thm_table1_36(); } else { thm_table1_37(); } } else { if i < 39 { thm_table1_38(); } else { thm_table1_39(); } } } } else { if i < 44 { if i < 42 { if i < 41 { thm_table1_40(); } else { thm_table1_41(); } } else { if i < 43 { thm_table1_42(); } else { thm_table1_43(); } } } else { if i < 46 { if i < 45 { thm_table1_44(); } else { thm_table1_45(); } } else { if i < 47 { thm_table1_46(); } else { thm_table1_47(); } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { thm_table1_48(); } else { thm_table1_49(); } } else { if i < 51 { thm_table1_50(); } else { thm_table1_51(); } } } else { if i < 54 { if i < 53 { thm_table1_52(); } else { thm_table1_53(); } } else { if i < 55 { thm_table1_54(); } else { thm_table1_55(); } } } } else { if i < 60 { if i < 58 { if i < 57 { thm_table1_56(); } else { thm_table1_57(); } } else { if i < 59 { thm_table1_58(); } else { thm_table1_59(); } } } else { if i < 62 { if i < 61 { thm_table1_60(); } else { thm_table1_61(); } } else { if i < 63 { thm_table1_62(); } else { thm_table1_63(); } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { thm_table1_64(); } else { thm_table1_65(); } } else { if i < 67 { thm_table1_66(); } else { thm_table1_67(); } } } else { if i < 70 { if i < 69 { thm_table1_68(); } else { thm_table1_69(); } } else { if i < 71 { thm_table1_70(); } else { thm_table1_71(); } } } } else { if i < 76 { if i < 74 { if i < 73 { thm_table1_72(); } else { thm_table1_73(); } } else { if i < 75 { thm_table1_74(); } else { thm_table1_75(); } } } else { if i < 78 { if i < 77 { thm_table1_76(); } else { thm_table1_77(); } } else { if i < 79 { thm_table1_78(); } else { thm_table1_79(); } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { thm_table1_80(); } else { thm_table1_81(); } } else { if i < 83 { thm_table1_82(); } else { thm_table1_83(); } } } else { if i < 86 { if i < 85 { thm_table1_84(); } else { thm_table1_85(); } } else { if i < 87 { thm_table1_86(); } else { thm_table1_87(); } } } } else { if i < 92 { if i < 90 { if i < 89 { thm_table1_88(); } else { thm_table1_89(); } } else { if i < 91 { thm_table1_90(); } else { thm_table1_91(); } } } else { if i < 94 { if i < 93 { thm_table1_92(); } else { thm_table1_93(); } } else { if i < 95 { thm_table1_94(); } else { thm_table1_95(); } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { thm_table1_96(); } else { thm_table1_97(); } } else { if i < 99 { thm_table1_98(); } else { thm_table1_99(); } } } else { if i < 102 { if i < 101 { thm_table1_100(); } else { thm_table1_101(); } } else { if i < 103 { thm_table1_102(); } else { thm_table1_103(); } } } } else { if i < 108 { if i < 106 { if i < 105 { thm_table1_104(); } else { thm_table1_105(); } } else { if i < 107 { thm_table1_106(); } else { thm_table1_107(); } } } else { if i < 110 { if i < 109 { thm_table1_108(); } else { thm_table1_109(); } } else { if i < 111 { thm_table1_110(); } else { thm_table1_111(); } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { thm_table1_112(); } else { thm_table1_113(); } } else { if i < 115 { thm_table1_114(); } else { thm_table1_115(); } } } else { if i < 118 { if i < 117 { thm_table1_116(); } else { thm_table1_117(); } } else { if i < 119 { thm_table1_118(); } else { thm_table1_119(); } } } } else { if i < 124 { if i < 122 { if i < 121 { thm_table1_120(); } else { thm_table1_121(); } } else { if i < 123 { thm_table1_122(); } else { thm_table1_123(); } } } else { if i < 126 { if i < 125 { thm_table1_124(); } else { thm_table1_125(); } } else { if i < 127 { thm_table1_126(); } else { thm_table1_127(); } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { thm_table1_128(); } else { thm_table1_129(); } } else { if i < 131 { thm_table1_130(); } else { thm_table1_131(); } } } else { if i < 134 { if i < 133 { thm_table1_132(); } else { thm_table1_133(); } } else { if i < 135 { thm_table1_134(); } else { thm_table1_135(); } } } } else { if i < 140 { if i < 138 { if i < 137 { thm_table1_136(); } else { thm_table1_137(); } } else { if i < 139 { thm_table1_138(); } else { thm_table1_139(); } } } else { if i < 142 { if i < 141 { thm_table1_140(); } else { thm_table1_141(); } } else { if i < 143 { thm_table1_142(); } else { thm_table1_143(); } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { thm_table1_144(); } else { thm_table1_145(); } } else { if i < 147 { thm_table1_146(); } else { thm_table1_147(); } } } else { if i < 150 { if i < 149 { thm_table1_148(); } else { thm_table1_149(); } } else { if i < 151 { thm_table1_150(); } else { thm_table1_151(); } } } } else { if i < 156 { if i < 154 { if i < 153 { thm_table1_152(); } else { thm_table1_153(); } } else { if i < 155 { thm_table1_154(); } else { thm_table1_155(); } } } else { if i < 158 { if i < 157 { thm_table1_156(); } else { thm_table1_157(); } } else { if i < 159 { thm_table1_158(); } else { thm_table1_159(); } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { thm_table1_160(); } else { thm_table1_161(); } } else { if i < 163 { thm_table1_162(); } else { thm_table1_163(); } } } else { if i < 166 { if i < 165 { thm_table1_164(); } else { thm_table1_165(); } } else { if i < 167 { thm_table1_166(); } else { thm_table1_167(); } } } } else { if i < 172 { if i < 170 { if i < 169 { thm_table1_168(); } else { thm_table1_169(); } } else { if i < 171 { thm_table1_170(); } else { thm_table1_171(); } } } else { if i < 174 { if i < 173 { thm_table1_172(); } else { thm_table1_173(); } } else { if i < 175 { thm_table1_174(); } else { thm_table1_175(); } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { thm_table1_176(); } else { thm_table1_177(); } } else { if i < 179 { thm_table1_178(); } else { thm_table1_179(); } } } else { if i < 182 { if i < 181 { thm_table1_180(); } else { thm_table1_181(); } } else { if i < 183 { thm_table1_182(); } else { thm_table1_183(); } } } } else { if i < 188 { if i < 186 { if i < 185 { thm_table1_184(); } else { thm_table1_185(); } } else { if i < 187 { thm_table1_186(); } else { thm_table1_187(); } } } else { if i < 190 { if i < 189 { thm_table1_188(); } else { thm_table1_189(); } } else { if i < 191 { thm_table1_190(); } else { thm_table1_191(); } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { thm_table1_192(); } else { thm_table1_193(); } } else { if i < 195 { thm_table1_194(); } else { thm_table1_195(); } } } else { if i < 198 { if i < 197 { thm_table1_196(); } else { thm_table1_197(); } } else { if i < 199 { thm_table1_198(); } else { thm_table1_199(); } } } } else { if i < 204 { if i < 202 { if i < 201 { thm_table1_200(); } else { thm_table1_201(); } } else { if i < 203 { thm_table1_202(); } else { thm_table1_203(); } } } else { if i < 206 { if i < 205 { thm_table1_204(); } else { thm_table1_205(); } } else { if i < 207 { thm_table1_206(); } else { thm_table1_207(); } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { thm_table1_208(); } else { thm_table1_209(); } } else { if i < 211 { thm_table1_210(); } else { thm_table1_211(); } } } else { if i < 214 { if i < 213 { thm_table1_212(); } else { thm_table1_213(); } } else { if i < 215 { thm_table1_214(); } else { thm_table1_215(); } } } } else { if i < 220 { if i < 218 { if i < 217 { thm_table1_216(); } else { thm_table1_217(); } } else { if i < 219 { thm_table1_218(); } else { thm_table1_219(); } } } else { if i < 222 { if i < 221 { thm_table1_220(); } else { thm_table1_221(); } } else { if i < 223 { thm_table1_222(); } else { thm_table1_223(); } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { thm_table1_224(); } else { thm_table1_225(); } } else { if i < 227 { thm_table1_226(); } else { thm_table1_227(); } } } else { if i < 230 { if i < 229 { thm_table1_228(); } else { thm_table1_229(); } } else { if i < 231 { thm_table1_230(); } else { thm_table1_231(); } } } } else { if i < 236 { if i < 234 { if i < 233 { thm_table1_232(); } else { thm_table1_233(); } } else { if i < 235 { thm_table1_234(); } else { thm_table1_235(); } } } else { if i < 238 { if i < 237 { thm_table1_236(); } else { thm_table1_237(); } } else { if i < 239 { thm_table1_238(); } else { thm_table1_239(); } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { thm_table1_240(); } else { thm_table1_241(); } } else { if i < 243 { thm_table1_242(); } else { thm_table1_243(); } } } else { if i < 246 { if i < 245 { thm_table1_244(); } else { thm_table1_245(); } } else { if i < 247 { thm_table1_246(); } else { thm_table1_247(); } } } } else { if i < 252 { if i < 250 { if i < 249 { thm_table1_248(); } else { thm_table1_249(); } } else { if i < 251 { thm_table1_250(); } else { thm_table1_251(); } } } else { if i < 254 { if i < 253 { thm_table1_252(); } else { thm_table1_253(); } } else { if i < 255 { thm_table1_254(); } else { thm_table1_255(); } } } } } } } } }
pub proof fn lemma_root1() ensures path1(0).0 == 0, path1(0).1 == 0, path1(0).3 { reveal(path1); assert(path1(0).0 == 0 && path1(0).1 == 0 && path1(0).3) by(compute_only); }
}
#[verifier::opaque]
pub open spec fn path2(i: int) -> (int, int, int, bool) { if i < 63 { if i < 31 { if i < 15 { if i < 7 { if i < 3 { if i < 1 { (0, 0, 48, true) } else { if i < 2 { (2, 3, 69, true) } else { (4, 15, 119, true) } } } else { if i < 5 { if i < 4 { (6, 63, 88, true) } else { (8, 255, 63, true) } } else { if i < 6 { (10, 1023, 0, true) } else { (12, 4092, 0, true) } } } } else { if i < 11 { if i < 9 { if i < 8 { (12, 4095, 94, true) } else { (14, 16383, 123, true) } } else { if i < 10 { (16, 65535, 176, true) } else { (18, 262142, 178, true) } } } else { if i < 13 { if i < 12 { (20, 1048571, 1, true) } else { (22, 4194284, 1, true) } } else { if i < 14 { (18, 262143, 147, true) } else { (20, 1048575, 171, true) } } } } } else { if i < 23 { if i < 19 { if i < 17 { if i < 16 { (22, 4194303, 211, true) } else { (24, 16777214, 254, true) } } else { if i < 18 { (26, 67108856, 254, true) } else { (26, 67108857, 4, true) } } } else { if i < 21 { if i < 20 { (26, 67108858, 8, true) } else { (20, 1048574, 188, true) } } else { if i < 22 { (22, 4194298, 239, true) } else { (24, 16777215, 19, true) } } } } else { if i < 27 { if i < 25 { if i < 24 { (26, 67108863, 127, true) } else { (28, 268435455, 10, true) } } else { if i < 26 { (26, 67108859, 15, true) } else { (26, 67108860, 19, true) } } } else { if i < 29 { if i < 28 { (26, 67108861, 24, true) } else { (26, 67108862, 28, true) } } else { if i < 30 { (2, 1, 115, true) } else { (4, 5, 32, true) } } } } } } else { if i < 47 { if i < 39 { if i < 35 { if i < 33 { if i < 32 { (8, 254, 33, true) } else { (10, 1022, 124, true) } } else { if i < 34 { (6, 62, 38, true) } else { (10, 1021, 39, true) } } } else { if i < 37 { if i < 36 { (4, 6, 47, true) } else { (2, 0, 48, true) } } else { if i < 38 { (4, 0, 48, true) } else { (4, 1, 50, true) } } } } else { if i < 43 { if i < 41 { if i < 40 { (4, 7, 54, true) } else { (2, 2, 61, true) } } else { if i < 42 { (4, 11, 114, true) } else { (6, 46, 58, true) } } } else { if i < 45 { if i < 44 { (14, 16382, 60, true) } else { (4, 8, 61, true) } } else { if i < 46 { (12, 4093, 64, true) } else { (6, 47, 67, true) } } } } } else { if i < 55 { if i < 51 { if i < 49 { if i < 48 { (4, 12, 69, true) } else { (6, 48, 69, true) } } else { if i < 50 { (6, 49, 71, true) } else { (6, 50, 73, true) } } } else { if i < 53 { if i < 52 { (6, 51, 75, true) } else { (4, 13, 77, true) } } else { if i < 54 { (6, 52, 77, true) } else { (6, 53, 79, true) } } } } else { if i < 59 { if i < 57 { if i < 56 { (6, 54, 81, true) } else { (6, 55, 83, true) } } else { if i < 58 { (4, 14, 85, true) } else { (6, 56, 85, true) } } } else { if i < 61 { if i < 60 { (6, 57, 87, true) } else { (16, 65534, 92, true) } } else { if i < 62 { (18, 262136, 92, true) } else { (12, 4094, 93, true) } } } } } } } else { if i < 94 { if i < 78 { if i < 70 { if i < 66 { if i < 64 { (4, 2, 99, true) } else { if i < 65 { (4, 9, 100, true) } else { (4, 3, 105, true) } } } else { if i < 68 { if i < 67 { (6, 58, 106, true) } else { (4, 10, 108, true) } } else { if i < 69 { (6, 59, 113, true) } else { (4, 4, 115, true) } } } } else { if i < 74 { if i < 72 { if i < 71 { (6, 60, 119, true) } else { (6, 61, 121, true) } } else { if i < 73 { (18, 262137, 208, true) } else { (18, 262141, 230, true) } } } else { if i < 76 { if i < 75 { (20, 1048564, 230, true) } else { (18, 262138, 131, true) } } else { if i < 77 { (20, 1048565, 133, true) } else { (22, 4194285, 137, true) } } } } } else { if i < 86 { if i < 82 { if i < 80 { if i < 79 { (22, 4194286, 139, true) } else { (22, 4194287, 141, true) } } else { if i < 81 { (22, 4194299, 144, true) } else { (20, 1048572, 147, true) } } } else { if i < 84 { if i < 83 { (22, 4194288, 147, true) } else { (22, 4194289, 150, true) } } else { if i < 85 { (22, 4194290, 152, true) } else { (18, 262139, 224, true) } } } } else { if i < 90 { if i < 88 { if i < 87 { (20, 1048558, 153, true) } else { (20, 1048566, 154, true) } } else { if i < 89 { (22, 4194291, 157, true) } else { (20, 1048567, 164, true) } } } else { if i < 92 { if i < 91 { (20, 1048573, 165, true) } else { (22, 4194292, 165, true) } } else { if i < 93 { (20, 1048559, 167, true) } else { (22, 4194293, 168, true) } } } } } } else { if i < 110 { if i < 102 { if i < 98 { if i < 96 { if i < 95 { (22, 4194300, 171, true) } else { (22, 4194294, 175, true) } } else { if i < 97 { (18, 262140, 176, true) } else { (20, 1048560, 176, true) } } } else { if i < 100 { if i < 99 { (20, 1048568, 178, true) } else { (20, 1048561, 179, true) } } else { if i < 101 { (22, 4194295, 182, true) } else { (20, 1048569, 187, true) } } } } else { if i < 106 { if i < 104 { if i < 103 { (22, 4194296, 188, true) } else { (22, 4194302, 192, true) } } else { if i < 105 { (24, 16777208, 192, true) } else { (22, 4194297, 197, true) } } } else { if i < 108 { if i < 107 { (20, 1048570, 198, true) } else { (22, 4194301, 236, true) } } else { if i < 109 { (24, 16777206, 199, true) } else { (24, 16777209, 202, true) } } } } } else { if i < 118 { if i < 114 { if i < 112 { if i < 111 { (24, 16777211, 242, true) } else { (26, 67108847, 203, true) } } else { if i < 113 { (24, 16777212, 211, true) } else { (26, 67108848, 211, true) } } } else { if i < 116 { if i < 115 { (26, 67108849, 214, true) } else { (20, 1048562, 216, true) } } else { if i < 117 { (24, 16777210, 218, true) } else { (26, 67108850, 222, true) } } } } else { if i < 122 { if i < 120 { if i < 119 { (20, 1048563, 227, true) } else { (24, 16777207, 234, true) } } else { if i < 121 { (26, 67108851, 241, true) } else { (24, 16777213, 245, true) } } } else { if i < 124 { if i < 123 { (26, 67108852, 245, true) } else { (26, 67108853, 247, true) } } else { if i < 125 { (26, 67108854, 250, true) } else { (26, 67108855, 252, true) } } } } } } } }
#[verifier::opaque]
pub open spec fn ent2(i: int, k: int) -> (Option<u8>, Option<u16>, u8) { crate::httlib_huffman::decoder::table2::DECODE_TABLE[i][k] }
pub open spec fn key2(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {
    match e {
        (_, Some(c), l) => sym_ok(2, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < 126 && next_ok(2, p, k, path2(j as int)),
        _ => false,
    }
}
pub open spec fn keys2(r: [(Option<u8>, Option<u16>, u8); 4], p: (int, int, int, bool), k: int) -> bool decreases k { k <= 0 || (key2(r[k - 1], p, k - 1) && keys2(r, p, k - 1)) }
#[verifier::opaque]
pub open spec fn row2(r: [(Option<u8>, Option<u16>, u8); 4], p: (int, int, int, bool)) -> bool { !p.3 || (row_ok(p) && keys2(r, p, 4)) }
proof fn lemma_keys2(r: [(Option<u8>, Option<u16>, u8); 4], p: (int, int, int, bool), m: int, k: int)
    requires keys2(r, p, m), 0 <= k < m
    ensures key2(r[k], p, k)
    decreases m
{ if k < m - 1 { lemma_keys2(r, p, m - 1, k); } }
// The shipped table of speed 2 leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table2(i: int, k: int)
    requires 0 <= i < 126, path2(i).3, 0 <= k < 4
    ensures row_ok(path2(i)), key2(ent2(i, k), path2(i), k)
{ reveal(ent2); reveal(row2); r2::lemma_rows2(i); lemma_keys2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[i], path2(i), 4, k); }
pub mod r2 {
use vstd::prelude::*; use crate::hspec::*; use super::*;
proof fn thm_table2_0() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[0], path2(0)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[0], path2(0))) by(compute_only); }
proof fn thm_table2_1() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[1], path2(1)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[1], path2(1))) by(compute_only); }
proof fn thm_table2_2() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[2], path2(2)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[2], path2(2))) by(compute_only); }
proof fn thm_table2_3() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[3], path2(3)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[3], path2(3))) by(compute_only); }
proof fn thm_table2_4() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[4], path2(4)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[4], path2(4))) by(compute_only); }
proof fn thm_table2_5() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[5], path2(5)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[5], path2(5))) by(compute_only); }
proof fn thm_table2_6() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[6], path2(6)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[6], path2(6))) by(compute_only); }
proof fn thm_table2_7() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[7], path2(7)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[7], path2(7))) by(compute_only); }
proof fn thm_table2_8() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[8], path2(8)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[8], path2(8))) by(compute_only); }
proof fn thm_table2_9() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[9], path2(9)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[9], path2(9))) by(compute_only); }
proof fn thm_table2_10() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[10], path2(10)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[10], path2(10))) by(compute_only); }
proof fn thm_table2_11() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[11], path2(11)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[11], path2(11))) by(compute_only); }
proof fn thm_table2_12() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[12], path2(12)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[12], path2(12))) by(compute_only); }
proof fn thm_table2_13() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[13], path2(13)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[13], path2(13))) by(compute_only); }
proof fn thm_table2_14() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[14], path2(14)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[14], path2(14))) by(compute_only); }
proof fn thm_table2_15() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[15], path2(15)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[15], path2(15))) by(compute_only); }
proof fn thm_table2_16() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[16], path2(16)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[16], path2(16))) by(compute_only); }
proof fn thm_table2_17() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[17], path2(17)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[17], path2(17))) by(compute_only); }
proof fn thm_table2_18() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[18], path2(18)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[18], path2(18))) by(compute_only); }
proof fn thm_table2_19() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[19], path2(19)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[19], path2(19))) by(compute_only); }
proof fn thm_table2_20() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[20], path2(20)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[20], path2(20))) by(compute_only); }
proof fn thm_table2_21() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[21], path2(21)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[21], path2(21))) by(compute_only); }
proof fn thm_table2_22() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[22], path2(22)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[22], path2(22))) by(compute_only); }
proof fn thm_table2_23() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[23], path2(23)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[23], path2(23))) by(compute_only); }
proof fn thm_table2_24() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[24], path2(24)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[24], path2(24))) by(compute_only); }
proof fn thm_table2_25() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[25], path2(25)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[25], path2(25))) by(compute_only); }
proof fn thm_table2_26() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[26], path2(26)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[26], path2(26))) by(compute_only); }
proof fn thm_table2_27() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[27], path2(27)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[27], path2(27))) by(compute_only); }
proof fn thm_table2_28() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[28], path2(28)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[28], path2(28))) by(compute_only); }
proof fn thm_table2_29() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[29], path2(29)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[29], path2(29))) by(compute_only); }
proof fn thm_table2_30() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[30], path2(30)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[30], path2(30))) by(compute_only); }
proof fn thm_table2_31() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[31], path2(31)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[31], path2(31))) by(compute_only); }
proof fn thm_table2_32() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[32], path2(32)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[32], path2(32))) by(compute_only); }
proof fn thm_table2_33() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[33], path2(33)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[33], path2(33))) by(compute_only); }
proof fn thm_table2_34() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[34], path2(34)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[34], path2(34))) by(compute_only); }
proof fn thm_table2_35() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[35], path2(35)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[35], path2(35))) by(compute_only); }
proof fn thm_table2_36() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[36], path2(36)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[36], path2(36))) by(compute_only); }
proof fn thm_table2_37() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[37], path2(37)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[37], path2(37))) by(compute_only); }
proof fn thm_table2_38() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[38], path2(38)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[38], path2(38))) by(compute_only); }
proof fn thm_table2_39() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[39], path2(39)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[39], path2(39))) by(compute_only); }
proof fn thm_table2_40() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[40], path2(40)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[40], path2(40))) by(compute_only); }
proof fn thm_table2_41() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[41], path2(41)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[41], path2(41))) by(compute_only); }
proof fn thm_table2_42() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[42], path2(42)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[42], path2(42))) by(compute_only); }
proof fn thm_table2_43() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[43], path2(43)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[43], path2(43))) by(compute_only); }
proof fn thm_table2_44() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[44], path2(44)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[44], path2(44))) by(compute_only); }
proof fn thm_table2_45() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[45], path2(45)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[45], path2(45))) by(compute_only); }
proof fn thm_table2_46() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[46], path2(46)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[46], path2(46))) by(compute_only); }
proof fn thm_table2_47() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[47], path2(47)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[47], path2(47))) by(compute_only); }
proof fn thm_table2_48() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[48], path2(48)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[48], path2(48))) by(compute_only); }
proof fn thm_table2_49() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[49], path2(49)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[49], path2(49))) by(compute_only); }
proof fn thm_table2_50() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[50], path2(50)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[50], path2(50))) by(compute_only); }
proof fn thm_table2_51() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[51], path2(51)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[51], path2(51))) by(compute_only); }
proof fn thm_table2_52() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[52], path2(52)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[52], path2(52))) by(compute_only); }
proof fn thm_table2_53() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[53], path2(53)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[53], path2(53))) by(compute_only); }
proof fn thm_table2_54() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[54], path2(54)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[54], path2(54))) by(compute_only); }
proof fn thm_table2_55() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[55], path2(55)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[55], path2(55))) by(compute_only); }
proof fn thm_table2_56() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[56], path2(56)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[56], path2(56))) by(compute_only); }
proof fn thm_table2_57() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[57], path2(57)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[57], path2(57))) by(compute_only); }
proof fn thm_table2_58() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[58], path2(58)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[58], path2(58))) by(compute_only); }
proof fn thm_table2_59() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[59], path2(59)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[59], path2(59))) by(compute_only); }
proof fn thm_table2_60() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[60], path2(60)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[60], path2(60))) by(compute_only); }
proof fn thm_table2_61() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[61], path2(61)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[61], path2(61))) by(compute_only); }
proof fn thm_table2_62() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[62], path2(62)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[62], path2(62))) by(compute_only); }
proof fn thm_table2_63() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[63], path2(63)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[63], path2(63))) by(compute_only); }
proof fn thm_table2_64() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[64], path2(64)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[64], path2(64))) by(compute_only); }
proof fn thm_table2_65() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[65], path2(65)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[65], path2(65))) by(compute_only); }
proof fn thm_table2_66() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[66], path2(66)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[66], path2(66))) by(compute_only); }
proof fn thm_table2_67() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[67], path2(67)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[67], path2(67))) by(compute_only); }
proof fn thm_table2_68() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[68], path2(68)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[68], path2(68))) by(compute_only); }
proof fn thm_table2_69() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[69], path2(69)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[69], path2(69))) by(compute_only); }
proof fn thm_table2_70() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[70], path2(70)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[70], path2(70))) by(compute_only); }
proof fn thm_table2_71() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[71], path2(71)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[71], path2(71))) by(compute_only); }
proof fn thm_table2_72() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[72], path2(72)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[72], path2(72))) by(compute_only); }
proof fn thm_table2_73() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[73], path2(73)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[73], path2(73))) by(compute_only); }
proof fn thm_table2_74() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[74], path2(74)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[74], path2(74))) by(compute_only); }
proof fn thm_table2_75() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[75], path2(75)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[75], path2(75))) by(compute_only); }
proof fn thm_table2_76() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[76], path2(76)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[76], path2(76))) by(compute_only); }
proof fn thm_table2_77() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[77], path2(77)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[77], path2(77))) by(compute_only); }
proof fn thm_table2_78() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[78], path2(78)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[78], path2(78))) by(compute_only); }
proof fn thm_table2_79() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[79], path2(79)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[79], path2(79))) by(compute_only); }
proof fn thm_table2_80() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[80], path2(80)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[80], path2(80))) by(compute_only); }
proof fn thm_table2_81() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[81], path2(81)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[81], path2(81))) by(compute_only); }
proof fn thm_table2_82() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[82], path2(82)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[82], path2(82))) by(compute_only); }
proof fn thm_table2_83() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[83], path2(83)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[83], path2(83))) by(compute_only); }
proof fn thm_table2_84() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[84], path2(84)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[84], path2(84))) by(compute_only); }
proof fn thm_table2_85() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[85], path2(85)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[85], path2(85))) by(compute_only); }
proof fn thm_table2_86() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[86], path2(86)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[86], path2(86))) by(compute_only); }
proof fn thm_table2_87() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[87], path2(87)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[87], path2(87))) by(compute_only); }
proof fn thm_table2_88() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[88], path2(88)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[88], path2(88))) by(compute_only); }
proof fn thm_table2_89() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[89], path2(89)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[89], path2(89))) by(compute_only); }
proof fn thm_table2_90() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[90], path2(90)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[90], path2(90))) by(compute_only); }
proof fn thm_table2_91() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[91], path2(91)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[91], path2(91))) by(compute_only); }
proof fn thm_table2_92() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[92], path2(92)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[92], path2(92))) by(compute_only); }
proof fn thm_table2_93() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[93], path2(93)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[93], path2(93))) by(compute_only); }
proof fn thm_table2_94() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[94], path2(94)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[94], path2(94))) by(compute_only); }
proof fn thm_table2_95() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[95], path2(95)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[95], path2(95))) by(compute_only); }
proof fn thm_table2_96() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[96], path2(96)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[96], path2(96))) by(compute_only); }
proof fn thm_table2_97() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[97], path2(97)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[97], path2(97))) by(compute_only); }
proof fn thm_table2_98() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[98], path2(98)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[98], path2(98))) by(compute_only); }
proof fn thm_table2_99() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[99], path2(99)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[99], path2(99))) by(compute_only); }
proof fn thm_table2_100() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[100], path2(100)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[100], path2(100))) by(compute_only); }
proof fn thm_table2_101() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[101], path2(101)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[101], path2(101))) by(compute_only); }
proof fn thm_table2_102() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[102], path2(102)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[102], path2(102))) by(compute_only); }
proof fn thm_table2_103() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[103], path2(103)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[103], path2(103))) by(compute_only); }
proof fn thm_table2_104() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[104], path2(104)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[104], path2(104))) by(compute_only); }
proof fn thm_table2_105() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[105], path2(105)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[105], path2(105))) by(compute_only); }
proof fn thm_table2_106() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[106], path2(106)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[106], path2(106))) by(compute_only); }
proof fn thm_table2_107() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[107], path2(107)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[107], path2(107))) by(compute_only); }
proof fn thm_table2_108() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[108], path2(108)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[108], path2(108))) by(compute_only); }
proof fn thm_table2_109() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[109], path2(109)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[109], path2(109))) by(compute_only); }
proof fn thm_table2_110() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[110], path2(110)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[110], path2(110))) by(compute_only); }
proof fn thm_table2_111() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[111], path2(111)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[111], path2(111))) by(compute_only); }
proof fn thm_table2_112() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[112], path2(112)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[112], path2(112))) by(compute_only); }
proof fn thm_table2_113() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[113], path2(113)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[113], path2(113))) by(compute_only); }
proof fn thm_table2_114() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[114], path2(114)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[114], path2(114))) by(compute_only); }
proof fn thm_table2_115() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[115], path2(115)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[115], path2(115))) by(compute_only); }
proof fn thm_table2_116() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[116], path2(116)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[116], path2(116))) by(compute_only); }
proof fn thm_table2_117() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[117], path2(117)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[117], path2(117))) by(compute_only); }
proof fn thm_table2_118() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[118], path2(118)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[118], path2(118))) by(compute_only); }
proof fn thm_table2_119() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[119], path2(119)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[119], path2(119))) by(compute_only); }
proof fn thm_table2_120() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[120], path2(120)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[120], path2(120))) by(compute_only); }
proof fn thm_table2_121() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[121], path2(121)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[121], path2(121))) by(compute_only); }
proof fn thm_table2_122() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[122], path2(122)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[122], path2(122))) by(compute_only); }
proof fn thm_table2_123() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[123], path2(123)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[123], path2(123))) by(compute_only); }
proof fn thm_table2_124() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[124], path2(124)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[124], path2(124))) by(compute_only); }
proof fn thm_table2_125() ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[125], path2(125)) { reveal(crate::httlib_huffman::decoder::table2::DECODE_TABLE); reveal(rfc); reveal(path2); reveal(row2); assert(row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[125], path2(125))) by(compute_only); }
pub proof fn lemma_rows2(i: int) requires 0 <= i < 126, path2(i).3 ensures row2(crate::httlib_huffman::decoder::table2::DECODE_TABLE[i], path2(i))
{ reveal(path2); if i < 63 { if i < 31 { if i < 15 { if i < 7 { if i < 3 { if i < 1 { thm_table2_0(); } else { if i < 2 { thm_table2_1(); } else { thm_table2_2(); } } } else { if i < 5 { if i < 4 { thm_table2_3(); } else { thm_table2_4(); } } else { if i < 6 { thm_table2_5(); } else { thm_table2_6(); } } } } else { if i < 11 { if i < 9 { if i < 8 { thm_table2_7(); } else { thm_table2_8(); } } else { if i < 10 { thm_table2_9(); } else { thm_table2_10(); } } } else { if i < 13 { if i < 12 { thm_table2_11(); } else { thm_table2_12(); } } else { if i < 14 { thm_table2_13(); } else { thm_table2_14(); } } } } } else { if i < 23 { if i < 19 { if i < 17 { if i < 16 { thm_table2_15(); } else { thm_table2_16(); } } else { if i < 18 { thm_table2_17(); } else { thm_table2_18(); } } } else { if i < 21 { if i < 20 { thm_table2_19(); } else { thm_table2_20(); } } else { if i < 22 { thm_table2_21(); } else { thm_table2_22(); } } } } else { if i < 27 { if i < 25 { if i < 24 { thm_table2_23(); } else { thm_table2_24(); } } else { if i < 26 { thm_table2_25(); } else { thm_table2_26(); } } } else { if i < 29 { if i < 28 { thm_table2_27(); } else { thm_table2_28(); } } else { if i < 30 { thm_table2_29(); } else { thm_table2_30(); } } } } } } else { if i < 47 { if i < 39 { if i < 35 { if i < 33 { if i < 32 { thm_table2_31(); } else { thm_table2_32(); } } else { if i < 34 { thm_table2_33(); } else { thm_table2_34(); } } } else { if i < 37 { if i < 36 { thm_table2_35(); } else { thm_table2_36(); } } else { if i < 38 { thm_table2_37(); } else { thm_table2_38(); } } } } else { if i < 43 { if i < 41 { if i < 40 { thm_table2_39(); } else { thm_table2_40(); } } else { if i < 42 { thm_table2_41(); } else { thm_table2_42(); } } } else { if i < 45 { if i < 44 { thm_table2_43(); } else { thm_table2_44(); } } else { if i < 46 { thm_table2_45(); } else { thm_table2_46(); } } } } } else { if i < 55 { if i < 51 { if i < 49 { if i < 48 { thm_table2_47(); } else { thm_table2_48(); } } else { if i < 50 { thm_table2_49(); } else { thm_table2_50(); } } } else { if i < 53 { if i < 52 { thm_table2_51(); } else { thm_table2_52(); } } else { if i < 54 { thm_table2_53(); } else { thm_table2_54(); } } } } else { if i < 59 { if i < 57 { if i < 56 { thm_table2_55(); } else { thm_table2_56(); } } else { if i < 58 { thm_table2_57(); } else { thm_table2_58(); } } } else { if i < 61 { if i < 60 { thm_table2_59(); } else { thm_table2_60(); } } else { if i < 62 { thm_table2_61(); } else { thm_table2_62(); } } } } } } } else { if i < 94 { if i < 78 { if i < 70 { if i < 66 { if i < 64 { thm_table2_63(); } else { if i < 65 { thm_table2_64(); } else { thm_table2_65(); } } } else { if i < 68 { if i < 67 { thm_table2_66(); } else { thm_table2_67(); } } else { if i < 69 { thm_table2_68(); } else { thm_table2_69(); } } } } else { if i < 74 { if i < 72 { if i < 71 { thm_table2_70(); } else { thm_table2_71(); } } else { if i < 73 { thm_table2_72(); } else { thm_table2_73(); } } } else { if i < 76 { if i < 75 { thm_table2_74(); } else { thm_table2_75(); } } else { if i < 77 { thm_table2_76(); } else { thm_table2_77(); } } } } } else { if i < 86 { if i < 82 { if i < 80 { if i < 79 { thm_table2_78(); } else { thm_table2_79(); } } else { if i < 81 { thm_table2_80(); } else { thm_table2_81(); } } } else { if i < 84 { if i < 83 { thm_table2_82(); } else { thm_table2_83(); } } else { if i < 85 { thm_table2_84(); } else { thm_table2_85(); } } } } else { if i < 90 { if i < 88 { if i < 87 { thm_table2_86(); } else { thm_table2_87(); } } else { if i < 89 { thm_table2_88(); } else { thm_table2_89(); } } } else { if i < 92 { if i < 91 { thm_table2_90(); } else { thm_table2_91(); } } else { if i < 93 { thm_table2_92(); } else { thm_table2_93(); } } } } } } else { if i < 110 { if i < 102 { if i < 98 { if i < 96 { if i < 95 { thm_table2_94(); } else { thm_table2_95(); } } else { if i < 97 { thm_table2_96(); } else { thm_table2_97(); } } } else { if i < 100 { if i < 99 { thm_table2_98(); } else { thm_table2_99(); } } else { if i < 101 { thm_table2_100(); } else { thm_table2_101(); } } } } else { if i < 106 { if i < 104 { if i < 103 { thm_table2_102(); } else { thm_table2_103(); } } else { if i < 105 { thm_table2_104(); } else { thm_table2_105(); } } } else { if i < 108 { if i < 107 { thm_table2_106(); } else { thm_table2_107(); } } else { if i < 109 { thm_table2_108(); } else { thm_table2_109(); } } } } } else { if i < 118 { if i < 114 { if i < 112 { if i < 111 { thm_table2_110(); } else { thm_table2_111(); } } else { if i < 113 { thm_table2_112(); } else { thm_table2_113(); } } } else { if i < 116 { if i < 115 { thm_table2_114(); } else { thm_table2_115(); } } else { if i < 117 { thm_table2_116(); } else { thm_table2_117(); } } } } else { if i < 122 { if i < 120 { if i < 119 { thm_table2_118(); } else { thm_table2_119(); } } else { if i < 121 { thm_table2_120(); } else { thm_table2_121(); } } } else { if i < 124 { if i < 123 { thm_table2_122(); } else { thm_table2_123(); } } else { if i < 125 { thm_table2_124(); } else { thm_table2_125(); } } } } } } } }
pub proof fn lemma_root2() ensures path2(0).0 == 0, path2(0).1 == 0, path2(0).3 { reveal(path2); assert(path2(0).0 == 0 && path2(0).1 == 0 && path2(0).3) by(compute_only); }
}
#[verifier::opaque]
pub open spec fn path3(i: int) -> (int, int, int, bool) { if i < 46 { if i < 23 { if i < 11 { if i < 5 { if i < 2 { if i < 1 { (0, 0, 48, true) } else { (3, 7, 85, true) } } else { if i < 3 { (6, 63, 88, true) } else { if i < 4 { (9, 511, 124, true) } else { (12, 4092, 0, true) } } } } else { if i < 8 { if i < 6 { (12, 4095, 94, true) } else { if i < 7 { (15, 32767, 92, true) } else { (18, 262142, 178, true) } } } else { if i < 9 { (21, 2097142, 1, true) } else { if i < 10 { (18, 262143, 147, true) } else { (21, 2097151, 192, true) } } } } } else { if i < 17 { if i < 14 { if i < 12 { (24, 16777214, 254, true) } else { if i < 13 { (27, 134217713, 2, true) } else { (27, 134217714, 4, true) } } } else { if i < 15 { (27, 134217715, 6, true) } else { if i < 16 { (27, 134217716, 8, true) } else { (21, 2097149, 239, true) } } } } else { if i < 20 { if i < 18 { (24, 16777215, 19, true) } else { if i < 19 { (27, 134217727, 249, true) } else { (27, 134217717, 12, true) } } } else { if i < 21 { (27, 134217718, 15, true) } else { if i < 22 { (27, 134217719, 17, true) } else { (27, 134217720, 19, true) } } } } } } else { if i < 34 { if i < 28 { if i < 25 { if i < 24 { (27, 134217721, 21, true) } else { (27, 134217722, 24, true) } } else { if i < 26 { (27, 134217723, 26, true) } else { if i < 27 { (27, 134217724, 28, true) } else { (27, 134217725, 30, true) } } } } else { if i < 31 { if i < 29 { (3, 2, 115, true) } else { if i < 30 { (9, 508, 33, true) } else { (6, 62, 38, true) } } } else { if i < 32 { (9, 510, 63, true) } else { if i < 33 { (9, 509, 40, true) } else { (3, 3, 47, true) } } } } } else { if i < 40 { if i < 37 { if i < 35 { (3, 0, 48, true) } else { if i < 36 { (3, 5, 108, true) } else { (6, 46, 58, true) } } } else { if i < 38 { (3, 4, 61, true) } else { if i < 39 { (12, 4093, 64, true) } else { (6, 47, 67, true) } } } } else { if i < 43 { if i < 41 { (3, 6, 69, true) } else { if i < 42 { (6, 48, 69, true) } else { (6, 49, 71, true) } } } else { if i < 44 { (6, 50, 73, true) } else { if i < 45 { (6, 51, 75, true) } else { (6, 52, 77, true) } } } } } } } else { if i < 69 { if i < 57 { if i < 51 { if i < 48 { if i < 47 { (6, 53, 79, true) } else { (6, 54, 81, true) } } else { if i < 49 { (6, 55, 83, true) } else { if i < 50 { (6, 56, 85, true) } else { (6, 57, 87, true) } } } } else { if i < 54 { if i < 52 { (18, 262136, 92, true) } else { if i < 53 { (12, 4094, 93, true) } else { (3, 1, 99, true) } } } else { if i < 55 { (6, 58, 106, true) } else { if i < 56 { (6, 59, 113, true) } else { (6, 60, 119, true) } } } } } else { if i < 63 { if i < 60 { if i < 58 { (6, 61, 121, true) } else { if i < 59 { (27, 134217726, 127, true) } else { (18, 262137, 208, true) } } } else { if i < 61 { (18, 262141, 230, true) } else { if i < 62 { (21, 2097129, 129, true) } else { (18, 262138, 131, true) } } } } else { if i < 66 { if i < 64 { (21, 2097130, 133, true) } else { if i < 65 { (21, 2097131, 136, true) } else { (21, 2097143, 139, true) } } } else { if i < 67 { (21, 2097144, 147, true) } else { if i < 68 { (21, 2097145, 152, true) } else { (18, 262139, 224, true) } } } } } } else { if i < 80 { if i < 74 { if i < 71 { if i < 70 { (21, 2097132, 154, true) } else { (21, 2097133, 160, true) } } else { if i < 72 { (21, 2097134, 164, true) } else { if i < 73 { (21, 2097146, 165, true) } else { (21, 2097135, 170, true) } } } } else { if i < 77 { if i < 75 { (21, 2097150, 171, true) } else { if i < 76 { (21, 2097147, 175, true) } else { (18, 262140, 176, true) } } } else { if i < 78 { (21, 2097136, 178, true) } else { if i < 79 { (21, 2097137, 185, true) } else { (21, 2097138, 187, true) } } } } } else { if i < 86 { if i < 83 { if i < 81 { (21, 2097148, 188, true) } else { if i < 82 { (21, 2097139, 190, true) } else { (24, 16777208, 192, true) } } } else { if i < 84 { (21, 2097140, 198, true) } else { if i < 85 { (24, 16777206, 199, true) } else { (24, 16777209, 202, true) } } } } else { if i < 89 { if i < 87 { (24, 16777211, 242, true) } else { if i < 88 { (24, 16777212, 211, true) } else { (24, 16777210, 218, true) } } } else { if i < 90 { (21, 2097141, 232, true) } else { if i < 91 { (24, 16777207, 234, true) } else { (24, 16777213, 245, true) } } } } } } } }
#[verifier::opaque]
pub open spec fn ent3(i: int, k: int) -> (Option<u8>, Option<u16>, u8) { crate::httlib_huffman::decoder::table3::DECODE_TABLE[i][k] }
pub open spec fn key3(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {
    match e {
        (_, Some(c), l) => sym_ok(3, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < 92 && next_ok(3, p, k, path3(j as int)),
        _ => false,
    }
}
pub open spec fn keys3(r: [(Option<u8>, Option<u16>, u8); 8], p: (int, int, int, bool), k: int) -> bool decreases k { k <= 0 || (key3(r[k - 1], p, k - 1) && keys3(r, p, k - 1)) }
#[verifier::opaque]
pub open spec fn row3(r: [(Option<u8>, Option<u16>, u8); 8], p: (int, int, int, bool)) -> bool { !p.3 || (row_ok(p) && keys3(r, p, 8)) }
proof fn lemma_keys3(r: [(Option<u8>, Option<u16>, u8); 8], p: (int, int, int, bool), m: int, k: int)
    requires keys3(r, p, m), 0 <= k < m
    ensures key3(r[k], p, k)
    decreases m
{ if k < m - 1 { lemma_keys3(r, p, m - 1, k); } }
// The shipped table of speed 3 leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table3(i: int, k: int)
    requires 0 <= i < 92, path3(i).3, 0 <= k < 8
    ensures row_ok(path3(i)), key3(ent3(i, k), path3(i), k)
{ reveal(ent3); reveal(row3); r3::lemma_rows3(i); lemma_keys3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[i], path3(i), 8, k); }
pub mod r3 {
use vstd::prelude::*; use crate::hspec::*; use super::*;
proof fn thm_table3_0() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[0], path3(0)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[0], path3(0))) by(compute_only); }
proof fn thm_table3_1() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[1], path3(1)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[1], path3(1))) by(compute_only); }
proof fn thm_table3_2() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[2], path3(2)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[2], path3(2))) by(compute_only); }
proof fn thm_table3_3() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[3], path3(3)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[3], path3(3))) by(compute_only); }
proof fn thm_table3_4() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[4], path3(4)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[4], path3(4))) by(compute_only); }
proof fn thm_table3_5() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[5], path3(5)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[5], path3(5))) by(compute_only); }
proof fn thm_table3_6() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[6], path3(6)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[6], path3(6))) by(compute_only); }
proof fn thm_table3_7() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[7], path3(7)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[7], path3(7))) by(compute_only); }
proof fn thm_table3_8() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[8], path3(8)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[8], path3(8))) by(compute_only); }
proof fn thm_table3_9() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[9], path3(9)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[9], path3(9))) by(compute_only); }
proof fn thm_table3_10() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[10], path3(10)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[10], path3(10))) by(compute_only); }
proof fn thm_table3_11() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[11], path3(11)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[11], path3(11))) by(compute_only); }
proof fn thm_table3_12() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[12], path3(12)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[12], path3(12))) by(compute_only); }
proof fn thm_table3_13() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[13], path3(13)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[13], path3(13))) by(compute_only); }
proof fn thm_table3_14() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[14], path3(14)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[14], path3(14))) by(compute_only); }
proof fn thm_table3_15() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[15], path3(15)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[15], path3(15))) by(compute_only); }
proof fn thm_table3_16() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[16], path3(16)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[16], path3(16))) by(compute_only); }
proof fn thm_table3_17() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[17], path3(17)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[17], path3(17))) by(compute_only); }
proof fn thm_table3_18() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[18], path3(18)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[18], path3(18))) by(compute_only); }
proof fn thm_table3_19() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[19], path3(19)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[19], path3(19))) by(compute_only); }
proof fn thm_table3_20() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[20], path3(20)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[20], path3(20))) by(compute_only); }
proof fn thm_table3_21() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[21], path3(21)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[21], path3(21))) by(compute_only); }
proof fn thm_table3_22() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[22], path3(22)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[22], path3(22))) by(compute_only); }
proof fn thm_table3_23() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[23], path3(23)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[23], path3(23))) by(compute_only); }
proof fn thm_table3_24() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[24], path3(24)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[24], path3(24))) by(compute_only); }
proof fn thm_table3_25() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[25], path3(25)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[25], path3(25))) by(compute_only); }
proof fn thm_table3_26() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[26], path3(26)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[26], path3(26))) by(compute_only); }
proof fn thm_table3_27() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[27], path3(27)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[27], path3(27))) by(compute_only); }
proof fn thm_table3_28() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[28], path3(28)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[28], path3(28))) by(compute_only); }
proof fn thm_table3_29() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[29], path3(29)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[29], path3(29))) by(compute_only); }
proof fn thm_table3_30() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[30], path3(30)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[30], path3(30))) by(compute_only); }
proof fn thm_table3_31() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[31], path3(31)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[31], path3(31))) by(compute_only); }
proof fn thm_table3_32() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[32], path3(32)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[32], path3(32))) by(compute_only); }
proof fn thm_table3_33() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[33], path3(33)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[33], path3(33))) by(compute_only); }
proof fn thm_table3_34() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[34], path3(34)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[34], path3(34))) by(compute_only); }
proof fn thm_table3_35() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[35], path3(35)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[35], path3(35))) by(compute_only); }
proof fn thm_table3_36() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[36], path3(36)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[36], path3(36))) by(compute_only); }
proof fn thm_table3_37() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[37], path3(37)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[37], path3(37))) by(compute_only); }
proof fn thm_table3_38() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[38], path3(38)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[38], path3(38))) by(compute_only); }
proof fn thm_table3_39() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[39], path3(39)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[39], path3(39))) by(compute_only); }
proof fn thm_table3_40() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[40], path3(40)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[40], path3(40))) by(compute_only); }
proof fn thm_table3_41() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[41], path3(41)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[41], path3(41))) by(compute_only); }
proof fn thm_table3_42() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[42], path3(42)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[42], path3(42))) by(compute_only); }
proof fn thm_table3_43() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[43], path3(43)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[43], path3(43))) by(compute_only); }
proof fn thm_table3_44() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[44], path3(44)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[44], path3(44))) by(compute_only); }
proof fn thm_table3_45() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[45], path3(45)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[45], path3(45))) by(compute_only); }
proof fn thm_table3_46() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[46], path3(46)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[46], path3(46))) by(compute_only); }
proof fn thm_table3_47() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[47], path3(47)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[47], path3(47))) by(compute_only); }
proof fn thm_table3_48() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[48], path3(48)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[48], path3(48))) by(compute_only); }
proof fn thm_table3_49() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[49], path3(49)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[49], path3(49))) by(compute_only); }
proof fn thm_table3_50() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[50], path3(50)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[50], path3(50))) by(compute_only); }
proof fn thm_table3_51() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[51], path3(51)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[51], path3(51))) by(compute_only); }
proof fn thm_table3_52() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[52], path3(52)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[52], path3(52))) by(compute_only); }
proof fn thm_table3_53() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[53], path3(53)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[53], path3(53))) by(compute_only); }
proof fn thm_table3_54() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[54], path3(54)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[54], path3(54))) by(compute_only); }
proof fn thm_table3_55() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[55], path3(55)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[55], path3(55))) by(compute_only); }
proof fn thm_table3_56() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[56], path3(56)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[56], path3(56))) by(compute_only); }
proof fn thm_table3_57() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[57], path3(57)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[57], path3(57))) by(compute_only); }
proof fn thm_table3_58() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[58], path3(58)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[58], path3(58))) by(compute_only); }
proof fn thm_table3_59() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[59], path3(59)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[59], path3(59))) by(compute_only); }
proof fn thm_table3_60() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[60], path3(60)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[60], path3(60))) by(compute_only); }
proof fn thm_table3_61() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[61], path3(61)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[61], path3(61))) by(compute_only); }
proof fn thm_table3_62() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[62], path3(62)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[62], path3(62))) by(compute_only); }
proof fn thm_table3_63() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[63], path3(63)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[63], path3(63))) by(compute_only); }
proof fn thm_table3_64() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[64], path3(64)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[64], path3(64))) by(compute_only); }
proof fn thm_table3_65() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[65], path3(65)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[65], path3(65))) by(compute_only); }
proof fn thm_table3_66() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[66], path3(66)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[66], path3(66))) by(compute_only); }
proof fn thm_table3_67() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[67], path3(67)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[67], path3(67))) by(compute_only); }
proof fn thm_table3_68() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[68], path3(68)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[68], path3(68))) by(compute_only); }
proof fn thm_table3_69() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[69], path3(69)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[69], path3(69))) by(compute_only); }
proof fn thm_table3_70() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[70], path3(70)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[70], path3(70))) by(compute_only); }
proof fn thm_table3_71() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[71], path3(71)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[71], path3(71))) by(compute_only); }
proof fn thm_table3_72() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[72], path3(72)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[72], path3(72))) by(compute_only); }
proof fn thm_table3_73() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[73], path3(73)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[73], path3(73))) by(compute_only); }
proof fn thm_table3_74() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[74], path3(74)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[74], path3(74))) by(compute_only); }
proof fn thm_table3_75() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[75], path3(75)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[75], path3(75))) by(compute_only); }
proof fn thm_table3_76() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[76], path3(76)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[76], path3(76))) by(compute_only); }
proof fn thm_table3_77() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[77], path3(77)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[77], path3(77))) by(compute_only); }
proof fn thm_table3_78() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[78], path3(78)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[78], path3(78))) by(compute_only); }
proof fn thm_table3_79() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[79], path3(79)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[79], path3(79))) by(compute_only); }
proof fn thm_table3_80() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[80], path3(80)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[80], path3(80))) by(compute_only); }
proof fn thm_table3_81() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[81], path3(81)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[81], path3(81))) by(compute_only); }
proof fn thm_table3_82() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[82], path3(82)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[82], path3(82))) by(compute_only); }
proof fn thm_table3_83() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[83], path3(83)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[83], path3(83))) by(compute_only); }
proof fn thm_table3_84() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[84], path3(84)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[84], path3(84))) by(compute_only); }
proof fn thm_table3_85() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[85], path3(85)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[85], path3(85))) by(compute_only); }
proof fn thm_table3_86() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[86], path3(86)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[86], path3(86))) by(compute_only); }
proof fn thm_table3_87() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[87], path3(87)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[87], path3(87))) by(compute_only); }
proof fn thm_table3_88() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[88], path3(88)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[88], path3(88))) by(compute_only); }
proof fn thm_table3_89() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[89], path3(89)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[89], path3(89))) by(compute_only); }
proof fn thm_table3_90() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[90], path3(90)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[90], path3(90))) by(compute_only); }
proof fn thm_table3_91() ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[91], path3(91)) { reveal(crate::httlib_huffman::decoder::table3::DECODE_TABLE); reveal(rfc); reveal(path3); reveal(row3); assert(row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[91], path3(91))) by(compute_only); }
pub proof fn lemma_rows3(i: int) requires 0 <= i < 92, path3(i).3 ensures row3(crate::httlib_huffman::decoder::table3::DECODE_TABLE[i], path3(i))
{ reveal(path3); if i < 46 { if i < 23 { if i < 11 { if i < 5 { if i < 2 { if i < 1 { thm_table3_0(); } else { thm_table3_1(); } } else { if i < 3 { thm_table3_2(); } else { if i < 4 { thm_table3_3(); } else { thm_table3_4(); } } } } else { if i < 8 { if i < 6 { thm_table3_5(); } else { if i < 7 { thm_table3_6(); } else { thm_table3_7(); } } } else { if i < 9 { thm_table3_8(); } else { if i < 10 { thm_table3_9(); } else { thm_table3_10(); } } } } } else { if i < 17 { if i < 14 { if i < 12 { thm_table3_11(); } else { if i < 13 { thm_table3_12(); } else { thm_table3_13(); } } } else { if i < 15 { thm_table3_14(); } else { if i < 16 { thm_table3_15(); } else { thm_table3_16(); } } } } else { if i < 20 { if i < 18 { thm_table3_17(); } else { if i < 19 { thm_table3_18(); } else { thm_table3_19(); } } } else { if i < 21 { thm_table3_20(); } else { if i < 22 { thm_table3_21(); } else { thm_table3_22(); } } } } } } else { if i < 34 { if i < 28 { if i < 25 { if i < 24 { thm_table3_23(); } else { thm_table3_24(); } } else { if i < 26 { thm_table3_25(); } else { if i < 27 { thm_table3_26(); } else { thm_table3_27(); } } } } else { if i < 31 { if i < 29 { thm_table3_28(); } else { if i < 30 { thm_table3_29(); } else { thm_table3_30(); } } } else { if i < 32 { thm_table3_31(); } else { if i < 33 { thm_table3_32(); } else { thm_table3_33(); } } } } } else { if i < 40 { if i < 37 { if i < 35 { thm_table3_34(); } else { if i < 36 { thm_table3_35(); } else { thm_table3_36(); } } } else { if i < 38 { thm_table3_37(); } else { if i < 39 { thm_table3_38(); } else { thm_table3_39(); } } } } else { if i < 43 { if i < 41 { thm_table3_40(); } else { if i < 42 { thm_table3_41(); } else { thm_table3_42(); } } } else { if i < 44 { thm_table3_43(); } else { if i < 45 { thm_table3_44(); } else { thm_table3_45(); } } } } } } } else { if i < 69 { if i < 57 { if i < 51 { if i < 48 { if i < 47 { thm_table3_46(); } else { thm_table3_47(); } } else { if i < 49 { thm_table3_48(); } else { if i < 50 { thm_table3_49(); } else { thm_table3_50(); } } } } else { if i < 54 { if i < 52 { thm_table3_51(); } else { if i < 53 { thm_table3_52(); } else { thm_table3_53(); } } } else { if i < 55 { thm_table3_54(); } else { if i < 56 { thm_table3_55(); } else { thm_table3_56(); } } } } } else { if i < 63 { if i < 60 { if i < 58 { thm_table3_57(); } else { if i < 59 { thm_table3_58(); } else { thm_table3_59(); } } } else { if i < 61 { thm_table3_60(); } else { if i < 62 { thm_table3_61(); } else { thm_table3_62(); } } } } else { if i < 66 { if i < 64 { thm_table3_63(); } else { if i < 65 { thm_table3_64(); } else { thm_table3_65(); } } } else { if i < 67 { thm_table3_66(); } else { if i < 68 { thm_table3_67(); } else { thm_table3_68(); } } } } } } else { if i < 80 { if i < 74 { if i < 71 { if i < 70 { thm_table3_69(); } else { thm_table3_70(); } } else { if i < 72 { thm_table3_71(); } else { if i < 73 { thm_table3_72(); } else { thm_table3_73(); } } } } else { if i < 77 { if i < 75 { thm_table3_74(); } else { if i < 76 { thm_table3_75(); } else { thm_table3_76(); } } } else { if i < 78 { thm_table3_77(); } else { if i < 79 { thm_table3_78(); } else { thm_table3_79(); } } } } } else { if i < 86 { if i < 83 { if i < 81 { thm_table3_80(); } else { if i < 82 { thm_table3_81(); } else { thm_table3_82(); } } } else { if i < 84 { thm_table3_83(); } else { if i < 85 { thm_table3_84(); } else { thm_table3_85(); } } } } else { if i < 89 { if i < 87 { thm_table3_86(); } else { if i < 88 { thm_table3_87(); } else { thm_table3_88(); } } } else { if i < 90 { thm_table3_89(); } else { if i < 91 { thm_table3_90(); } else { thm_table3_91(); } } } } } } } }
pub proof fn lemma_root3() ensures path3(0).0 == 0, path3(0).1 == 0, path3(0).3 { reveal(path3); assert(path3(0).0 == 0 && path3(0).1 == 0 && path3(0).3) by(compute_only); }
}
#[verifier::opaque]
pub open spec fn path4(i: int) -> (int, int, int, bool) { if i < 27 { if i < 13 { if i < 6 { if i < 3 { if i < 1 { (0, 0, 48, true) } else { if i < 2 { (4, 15, 119, true) } else { (8, 255, 63, true) } } } else { if i < 4 { (12, 4092, 0, true) } else { if i < 5 { (12, 4095, 94, true) } else { (16, 65535, 176, true) } } } } else { if i < 9 { if i < 7 { (20, 1048571, 1, true) } else { if i < 8 { (20, 1048575, 171, true) } else { (24, 16777214, 254, true) } } } else { if i < 11 { if i < 10 { (20, 1048574, 188, true) } else { (24, 16777215, 19, true) } } else { if i < 12 { (28, 268435455, 10, true) } else { (4, 5, 32, true) } } } } } else { if i < 20 { if i < 16 { if i < 14 { (8, 254, 33, true) } else { if i < 15 { (4, 6, 47, true) } else { (4, 0, 48, true) } } } else { if i < 18 { if i < 17 { (4, 1, 50, true) } else { (4, 7, 54, true) } } else { if i < 19 { (4, 11, 114, true) } else { (4, 8, 61, true) } } } } else { if i < 23 { if i < 21 { (12, 4093, 64, true) } else { if i < 22 { (4, 12, 69, true) } else { (4, 13, 77, true) } } } else { if i < 25 { if i < 24 { (4, 14, 85, true) } else { (16, 65534, 92, true) } } else { if i < 26 { (12, 4094, 93, true) } else { (4, 2, 99, true) } } } } } } else { if i < 40 { if i < 33 { if i < 30 { if i < 28 { (4, 9, 100, true) } else { if i < 29 { (4, 3, 105, true) } else { (4, 10, 108, true) } } } else { if i < 31 { (4, 4, 115, true) } else { if i < 32 { (20, 1048564, 230, true) } else { (20, 1048565, 133, true) } } } } else { if i < 36 { if i < 34 { (20, 1048572, 147, true) } else { if i < 35 { (20, 1048558, 153, true) } else { (20, 1048566, 154, true) } } } else { if i < 38 { if i < 37 { (20, 1048567, 164, true) } else { (20, 1048573, 165, true) } } else { if i < 39 { (20, 1048559, 167, true) } else { (20, 1048560, 176, true) } } } } } else { if i < 47 { if i < 43 { if i < 41 { (20, 1048568, 178, true) } else { if i < 42 { (20, 1048561, 179, true) } else { (20, 1048569, 187, true) } } } else { if i < 45 { if i < 44 { (24, 16777208, 192, true) } else { (20, 1048570, 198, true) } } else { if i < 46 { (24, 16777206, 199, true) } else { (24, 16777209, 202, true) } } } } else { if i < 50 { if i < 48 { (24, 16777211, 242, true) } else { if i < 49 { (24, 16777212, 211, true) } else { (20, 1048562, 216, true) } } } else { if i < 52 { if i < 51 { (24, 16777210, 218, true) } else { (20, 1048563, 227, true) } } else { if i < 53 { (24, 16777207, 234, true) } else { (24, 16777213, 245, true) } } } } } } }
#[verifier::opaque]
pub open spec fn ent4(i: int, k: int) -> (Option<u8>, Option<u16>, u8) { crate::httlib_huffman::decoder::table4::DECODE_TABLE[i][k] }
pub open spec fn key4(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {
    match e {
        (_, Some(c), l) => sym_ok(4, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < 54 && next_ok(4, p, k, path4(j as int)),
        _ => false,
    }
}
pub open spec fn keys4(r: [(Option<u8>, Option<u16>, u8); 16], p: (int, int, int, bool), k: int) -> bool decreases k { k <= 0 || (key4(r[k - 1], p, k - 1) && keys4(r, p, k - 1)) }
#[verifier::opaque]
pub open spec fn row4(r: [(Option<u8>, Option<u16>, u8); 16], p: (int, int, int, bool)) -> bool { !p.3 || (row_ok(p) && keys4(r, p, 16)) }
proof fn lemma_keys4(r: [(Option<u8>, Option<u16>, u8); 16], p: (int, int, int, bool), m: int, k: int)
    requires keys4(r, p, m), 0 <= k < m
    ensures key4(r[k], p, k)
    decreases m
{ if k < m - 1 { lemma_keys4(r, p, m - 1, k); } }
// The shipped table of speed 4 leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table4(i: int, k: int)
    requires 0 <= i < 54, path4(i).3, 0 <= k < 16
    ensures row_ok(path4(i)), key4(ent4(i, k), path4(i), k)
{ reveal(ent4); reveal(row4); r4::lemma_rows4(i); lemma_keys4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[i], path4(i), 16, k); }
pub mod r4 {
use vstd::prelude::*; use crate::hspec::*; use super::*;
proof fn thm_table4_0() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[0], path4(0)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[0], path4(0))) by(compute_only); }
proof fn thm_table4_1() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[1], path4(1)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[1], path4(1))) by(compute_only); }
proof fn thm_table4_2() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[2], path4(2)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[2], path4(2))) by(compute_only); }
proof fn thm_table4_3() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[3], path4(3)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[3], path4(3))) by(compute_only); }
proof fn thm_table4_4() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[4], path4(4)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[4], path4(4))) by(compute_only); }
proof fn thm_table4_5() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[5], path4(5)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[5], path4(5))) by(compute_only); }
proof fn thm_table4_6() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[6], path4(6)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[6], path4(6))) by(compute_only); }
proof fn thm_table4_7() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[7], path4(7)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[7], path4(7))) by(compute_only); }
proof fn thm_table4_8() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[8], path4(8)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[8], path4(8))) by(compute_only); }
proof fn thm_table4_9() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[9], path4(9)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[9], path4(9))) by(compute_only); }
proof fn thm_table4_10() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[10], path4(10)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[10], path4(10))) by(compute_only); }
proof fn thm_table4_11() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[11], path4(11)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[11], path4(11))) by(compute_only); }
proof fn thm_table4_12() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[12], path4(12)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[12], path4(12))) by(compute_only); }
proof fn thm_table4_13() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[13], path4(13)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[13], path4(13))) by(compute_only); }
proof fn thm_table4_14() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[14], path4(14)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[14], path4(14))) by(compute_only); }
proof fn thm_table4_15() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[15], path4(15)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[15], path4(15))) by(compute_only); }
proof fn thm_table4_16() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[16], path4(16)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[16], path4(16))) by(compute_only); }
proof fn thm_table4_17() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[17], path4(17)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[17], path4(17))) by(compute_only); }
proof fn thm_table4_18() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[18], path4(18)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[18], path4(18))) by(compute_only); }
proof fn thm_table4_19() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[19], path4(19)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[19], path4(19))) by(compute_only); }
proof fn thm_table4_20() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[20], path4(20)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[20], path4(20))) by(compute_only); }
proof fn thm_table4_21() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[21], path4(21)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[21], path4(21))) by(compute_only); }
proof fn thm_table4_22() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[22], path4(22)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[22], path4(22))) by(compute_only); }
proof fn thm_table4_23() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[23], path4(23)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[23], path4(23))) by(compute_only); }
proof fn thm_table4_24() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[24], path4(24)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[24], path4(24))) by(compute_only); }
proof fn thm_table4_25() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[25], path4(25)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[25], path4(25))) by(compute_only); }
proof fn thm_table4_26() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[26], path4(26)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[26], path4(26))) by(compute_only); }
proof fn thm_table4_27() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[27], path4(27)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[27], path4(27))) by(compute_only); }
proof fn thm_table4_28() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[28], path4(28)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[28], path4(28))) by(compute_only); }
proof fn thm_table4_29() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[29], path4(29)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[29], path4(29))) by(compute_only); }
proof fn thm_table4_30() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[30], path4(30)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[30], path4(30))) by(compute_only); }
proof fn thm_table4_31() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[31], path4(31)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[31], path4(31))) by(compute_only); }
proof fn thm_table4_32() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[32], path4(32)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[32], path4(32))) by(compute_only); }
proof fn thm_table4_33() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[33], path4(33)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[33], path4(33))) by(compute_only); }
proof fn thm_table4_34() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[34], path4(34)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[34], path4(34))) by(compute_only); }
proof fn thm_table4_35() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[35], path4(35)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[35], path4(35))) by(compute_only); }
proof fn thm_table4_36() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[36], path4(36)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[36], path4(36))) by(compute_only); }
proof fn thm_table4_37() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[37], path4(37)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[37], path4(37))) by(compute_only); }
proof fn thm_table4_38() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[38], path4(38)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[38], path4(38))) by(compute_only); }
proof fn thm_table4_39() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[39], path4(39)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[39], path4(39))) by(compute_only); }
proof fn thm_table4_40() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[40], path4(40)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[40], path4(40))) by(compute_only); }
proof fn thm_table4_41() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[41], path4(41)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[41], path4(41))) by(compute_only); }
proof fn thm_table4_42() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[42], path4(42)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[42], path4(42))) by(compute_only); }
proof fn thm_table4_43() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[43], path4(43)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[43], path4(43))) by(compute_only); }
proof fn thm_table4_44() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[44], path4(44)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[44], path4(44))) by(compute_only); }
proof fn thm_table4_45() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[45], path4(45)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[45], path4(45))) by(compute_only); }
proof fn thm_table4_46() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[46], path4(46)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[46], path4(46))) by(compute_only); }
proof fn thm_table4_47() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[47], path4(47)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[47], path4(47))) by(compute_only); }
proof fn thm_table4_48() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[48], path4(48)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[48], path4(48))) by(compute_only); }
proof fn thm_table4_49() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[49], path4(49)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[49], path4(49))) by(compute_only); }
proof fn thm_table4_50() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[50], path4(50)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[50], path4(50))) by(compute_only); }
proof fn thm_table4_51() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[51], path4(51)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[51], path4(51))) by(compute_only); }
proof fn thm_table4_52() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[52], path4(52)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[52], path4(52))) by(compute_only); }
proof fn thm_table4_53() ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[53], path4(53)) { reveal(crate::httlib_huffman::decoder::table4::DECODE_TABLE); reveal(rfc); reveal(path4); reveal(row4); assert(row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[53], path4(53))) by(compute_only); }
pub proof fn lemma_rows4(i: int) requires 0 <= i < 54, path4(i).3 ensures row4(crate::httlib_huffman::decoder::table4::DECODE_TABLE[i], path4(i))
{ reveal(path4); if i < 27 { if i < 13 { if i < 6 { if i < 3 { if i < 1 { thm_table4_0(); } else { if i < 2 { thm_table4_1(); } else { thm_table4_2(); } } } else { if i < 4 { thm_table4_3(); } else { if i < 5 { thm_table4_4(); } else { thm_table4_5(); } } } } else { if i < 9 { if i < 7 { thm_table4_6(); } else { if i < 8 { thm_table4_7(); } else { thm_table4_8(); } } } else { if i < 11 { if i < 10 { thm_table4_9(); } else { thm_table4_10(); } } else { if i < 12 { thm_table4_11(); } else { thm_table4_12(); } } } } } else { if i < 20 { if i < 16 { if i < 14 { thm_table4_13(); } else { if i < 15 { thm_table4_14(); } else { thm_table4_15(); } } } else { if i < 18 { if i < 17 { thm_table4_16(); } else { thm_table4_17(); } } else { if i < 19 { thm_table4_18(); } else { thm_table4_19(); } } } } else { if i < 23 { if i < 21 { thm_table4_20(); } else { if i < 22 { thm_table4_21(); } else { thm_table4_22(); } } } else { if i < 25 { if i < 24 { thm_table4_23(); } else { thm_table4_24(); } } else { if i < 26 { thm_table4_25(); } else { thm_table4_26(); } } } } } } else { if i < 40 { if i < 33 { if i < 30 { if i < 28 { thm_table4_27(); } else { if i < 29 { thm_table4_28(); } else { thm_table4_29(); } } } else { if i < 31 { thm_table4_30(); } else { if i < 32 { thm_table4_31(); } else { thm_table4_32(); } } } } else { if i < 36 { if i < 34 { thm_table4_33(); } else { if i < 35 { thm_table4_34(); } else { thm_table4_35(); } } } else { if i < 38 { if i < 37 { thm_table4_36(); } else { thm_table4_37(); } } else { if i < 39 { thm_table4_38(); } else { thm_table4_39(); } } } } } else { if i < 47 { if i < 43 { if i < 41 { thm_table4_40(); } else { if i < 42 { thm_table4_41(); } else { thm_table4_42(); } } } else { if i < 45 { if i < 44 { thm_table4_43(); } else { thm_table4_44(); } } else { if i < 46 { thm_table4_45(); } else { thm_table4_46(); } } } } else { if i < 50 { if i < 48 { thm_table4_47(); } else { if i < 49 { thm_table4_48(); } else { thm_table4_49(); } } } else { if i < 52 { if i < 51 { thm_table4_50(); } else { thm_table4_51(); } } else { if i < 53 { thm_table4_52(); } else { thm_table4_53(); } } } } } } }
pub proof fn lemma_root4() ensures path4(0).0 == 0, path4(0).1 == 0, path4(0).3 { reveal(path4); assert(path4(0).0 == 0 && path4(0).1 == 0 && path4(0).3) by(compute_only); }
}
#[verifier::opaque]
pub open spec fn path5(i: int) -> (int, int, int, bool) { if i < 30 { if i < 15 { if i < 7 { if i < 3 { if i < 1 { (0, 0, 48, true) } else { if i < 2 { (5, 31, 38, true) } else { (10, 1023, 0, true) } } } else { if i < 5 { if i < 4 { (15, 32767, 92, true) } else { (20, 1048571, 1, true) } } else { if i < 6 { (20, 1048575, 171, true) } else { (25, 33554428, 254, true) } } } } else { if i < 11 { if i < 9 { if i < 8 { (25, 33554429, 8, true) } else { (20, 1048574, 188, true) } } else { if i < 10 { (25, 33554431, 28, true) } else { (25, 33554430, 19, true) } } } else { if i < 13 { if i < 12 { (5, 10, 32, true) } else { (10, 1022, 124, true) } } else { if i < 14 { (10, 1021, 39, true) } else { (5, 11, 45, true) } } } } } else { if i < 22 { if i < 18 { if i < 16 { (5, 12, 47, true) } else { if i < 17 { (5, 13, 52, true) } else { (5, 14, 54, true) } } } else { if i < 20 { if i < 19 { (5, 15, 56, true) } else { (5, 23, 58, true) } } else { if i < 21 { (5, 16, 61, true) } else { (5, 24, 69, true) } } } } else { if i < 26 { if i < 24 { if i < 23 { (5, 25, 73, true) } else { (5, 26, 77, true) } } else { if i < 25 { (5, 27, 81, true) } else { (5, 28, 85, true) } } } else { if i < 28 { if i < 27 { (5, 17, 95, true) } else { (5, 18, 100, true) } } else { if i < 29 { (5, 19, 103, true) } else { (5, 29, 106, true) } } } } } } else { if i < 45 { if i < 37 { if i < 33 { if i < 31 { (5, 20, 108, true) } else { if i < 32 { (5, 21, 110, true) } else { (5, 22, 114, true) } } } else { if i < 35 { if i < 34 { (5, 30, 119, true) } else { (20, 1048564, 230, true) } } else { if i < 36 { (20, 1048565, 133, true) } else { (20, 1048572, 147, true) } } } } else { if i < 41 { if i < 39 { if i < 38 { (20, 1048558, 153, true) } else { (20, 1048566, 154, true) } } else { if i < 40 { (20, 1048567, 164, true) } else { (20, 1048573, 165, true) } } } else { if i < 43 { if i < 42 { (20, 1048559, 167, true) } else { (20, 1048560, 176, true) } } else { if i < 44 { (20, 1048568, 178, true) } else { (20, 1048561, 179, true) } } } } } else { if i < 53 { if i < 49 { if i < 47 { if i < 46 { (20, 1048569, 187, true) } else { (25, 33554416, 192, true) } } else { if i < 48 { (20, 1048570, 198, true) } else { (25, 33554417, 200, true) } } } else { if i < 51 { if i < 50 { (25, 33554418, 202, true) } else { (25, 33554423, 255, true) } } else { if i < 52 { (25, 33554419, 210, true) } else { (25, 33554424, 211, true) } } } } else { if i < 57 { if i < 55 { if i < 54 { (20, 1048562, 216, true) } else { (25, 33554420, 218, true) } } else { if i < 56 { (25, 33554425, 222, true) } else { (20, 1048563, 227, true) } } } else { if i < 59 { if i < 58 { (25, 33554421, 238, true) } else { (25, 33554422, 242, true) } } else { if i < 60 { (25, 33554426, 245, true) } else { (25, 33554427, 250, true) } } } } } } }
#[verifier::opaque]
pub open spec fn ent5(i: int, k: int) -> (Option<u8>, Option<u16>, u8) { crate::httlib_huffman::decoder::table5::DECODE_TABLE[i][k] }
pub open spec fn key5(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {
    match e {
        (_, Some(c), l) => sym_ok(5, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < 61 && next_ok(5, p, k, path5(j as int)),
        _ => false,
    }
}
pub open spec fn keys5(r: [(Option<u8>, Option<u16>, u8); 32], p: (int, int, int, bool), k: int) -> bool decreases k { k <= 0 || (key5(r[k - 1], p, k - 1) && keys5(r, p, k - 1)) }
#[verifier::opaque]
pub open spec fn row5(r: [(Option<u8>, Option<u16>, u8); 32], p: (int, int, int, bool)) -> bool { !p.3 || (row_ok(p) && keys5(r, p, 32)) }
proof fn lemma_keys5(r: [(Option<u8>, Option<u16>, u8); 32], p: (int, int, int, bool), m: int, k: int)
    requires keys5(r, p, m), 0 <= k < m
    ensures key5(r[k], p, k)
    decreases m
{ if k < m - 1 { lemma_keys5(r, p, m - 1, k); } }
// The shipped table of speed 5 leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table5(i: int, k: int)
    requires 0 <= i < 61, path5(i).3, 0 <= k < 32
    ensures row_ok(path5(i)), key5(ent5(i, k), path5(i), k)
{ reveal(ent5); reveal(row5); r5::lemma_rows5(i); lemma_keys5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[i], path5(i), 32, k); }
pub mod r5 {
use vstd::prelude::*; use crate::hspec::*; use super::*;
proof fn thm_table5_0() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[0], path5(0)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[0], path5(0))) by(compute_only); }
proof fn thm_table5_1() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[1], path5(1)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[1], path5(1))) by(compute_only); }
proof fn thm_table5_2() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[2], path5(2)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[2], path5(2))) by(compute_only); }
proof fn thm_table5_3() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[3], path5(3)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[3], path5(3))) by(compute_only); }
proof fn thm_table5_4() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[4], path5(4)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[4], path5(4))) by(compute_only); }
proof fn thm_table5_5() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[5], path5(5)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[5], path5(5))) by(compute_only); }
proof fn thm_table5_6() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[6], path5(6)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[6], path5(6))) by(compute_only); }
proof fn thm_table5_7() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[7], path5(7)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[7], path5(7))) by(compute_only); }
proof fn thm_table5_8() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[8], path5(8)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[8], path5(8))) by(compute_only); }
proof fn thm_table5_9() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[9], path5(9)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[9], path5(9))) by(compute_only); }
proof fn thm_table5_10() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[10], path5(10)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[10], path5(10))) by(compute_only); }
proof fn thm_table5_11() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[11], path5(11)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[11], path5(11))) by(compute_only); }
proof fn thm_table5_12() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[12], path5(12)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[12], path5(12))) by(compute_only); }
proof fn thm_table5_13() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[13], path5(13)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[13], path5(13))) by(compute_only); }
proof fn thm_table5_14() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[14], path5(14)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[14], path5(14))) by(compute_only); }
proof fn thm_table5_15() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[15], path5(15)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[15], path5(15))) by(compute_only); }
proof fn thm_table5_16() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[16], path5(16)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[16], path5(16))) by(compute_only); }
proof fn thm_table5_17() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[17], path5(17)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[17], path5(17))) by(compute_only); }
proof fn thm_table5_18() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[18], path5(18)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[18], path5(18))) by(compute_only); }
proof fn thm_table5_19() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[19], path5(19)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[19], path5(19))) by(compute_only); }
proof fn thm_table5_20() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[20], path5(20)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[20], path5(20))) by(compute_only); }
proof fn thm_table5_21() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[21], path5(21)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[21], path5(21))) by(compute_only); }
proof fn thm_table5_22() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[22], path5(22)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[22], path5(22))) by(compute_only); }
proof fn thm_table5_23() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[23], path5(23)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[23], path5(23))) by(compute_only); }
proof fn thm_table5_24() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[24], path5(24)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[24], path5(24))) by(compute_only); }
proof fn thm_table5_25() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[25], path5(25)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[25], path5(25))) by(compute_only); }
proof fn thm_table5_26() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[26], path5(26)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[26], path5(26))) by(compute_only); }
proof fn thm_table5_27() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[27], path5(27)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[27], path5(27))) by(compute_only); }
proof fn thm_table5_28() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[28], path5(28)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[28], path5(28))) by(compute_only); }
proof fn thm_table5_29() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[29], path5(29)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[29], path5(29))) by(compute_only); }
proof fn thm_table5_30() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[30], path5(30)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[30], path5(30))) by(compute_only); }
proof fn thm_table5_31() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[31], path5(31)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[31], path5(31))) by(compute_only); }
proof fn thm_table5_32() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[32], path5(32)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[32], path5(32))) by(compute_only); }
proof fn thm_table5_33() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[33], path5(33)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[33], path5(33))) by(compute_only); }
proof fn thm_table5_34() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[34], path5(34)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[34], path5(34))) by(compute_only); }
proof fn thm_table5_35() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[35], path5(35)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[35], path5(35))) by(compute_only); }
proof fn thm_table5_36() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[36], path5(36)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[36], path5(36))) by(compute_only); }
proof fn thm_table5_37() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[37], path5(37)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[37], path5(37))) by(compute_only); }
proof fn thm_table5_38() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[38], path5(38)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[38], path5(38))) by(compute_only); }
proof fn thm_table5_39() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[39], path5(39)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[39], path5(39))) by(compute_only); }
proof fn thm_table5_40() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[40], path5(40)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[40], path5(40))) by(compute_only); }
proof fn thm_table5_41() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[41], path5(41)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[41], path5(41))) by(compute_only); }
proof fn thm_table5_42() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[42], path5(42)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[42], path5(42))) by(compute_only); }
proof fn thm_table5_43() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[43], path5(43)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[43], path5(43))) by(compute_only); }
proof fn thm_table5_44() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[44], path5(44)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[44], path5(44))) by(compute_only); }
proof fn thm_table5_45() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[45], path5(45)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[45], path5(45))) by(compute_only); }
proof fn thm_table5_46() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[46], path5(46)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[46], path5(46))) by(compute_only); }
proof fn thm_table5_47() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[47], path5(47)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[47], path5(47))) by(compute_only); }
proof fn thm_table5_48() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[48], path5(48)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[48], path5(48))) by(compute_only); }
proof fn thm_table5_49() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[49], path5(49)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[49], path5(49))) by(compute_only); }
proof fn thm_table5_50() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[50], path5(50)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[50], path5(50))) by(compute_only); }
proof fn thm_table5_51() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[51], path5(51)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[51], path5(51))) by(compute_only); }
proof fn thm_table5_52() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[52], path5(52)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[52], path5(52))) by(compute_only); }
proof fn thm_table5_53() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[53], path5(53)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[53], path5(53))) by(compute_only); }
proof fn thm_table5_54() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[54], path5(54)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[54], path5(54))) by(compute_only); }
proof fn thm_table5_55() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[55], path5(55)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[55], path5(55))) by(compute_only); }
proof fn thm_table5_56() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[56], path5(56)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[56], path5(56))) by(compute_only); }
proof fn thm_table5_57() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[57], path5(57)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[57], path5(57))) by(compute_only); }
proof fn thm_table5_58() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[58], path5(58)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[58], path5(58))) by(compute_only); }
proof fn thm_table5_59() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[59], path5(59)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[59], path5(59))) by(compute_only); }
proof fn thm_table5_60() ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[60], path5(60)) { reveal(crate::httlib_huffman::decoder::table5::DECODE_TABLE); reveal(rfc); reveal(path5); reveal(row5); assert(row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[60], path5(60))) by(compute_only); }
pub proof fn lemma_rows5(i: int) requires 0 <= i < 61, path5(i).3 ensures row5(crate::httlib_huffman::decoder::table5::DECODE_TABLE[i], path5(i))
{ reveal(path5); if i < 30 { if i < 15 { if i < 7 { if i < 3 { if i < 1 { thm_table5_0(); } else { if i < 2 { thm_table5_1(); } else { thm_table5_2(); } } } else { if i < 5 { if i < 4 { thm_table5_3(); } else { thm_table5_4(); } } else { if i < 6 { thm_table5_5(); } else { thm_table5_6(); } } } } else { if i < 11 { if i < 9 { if i < 8 { thm_table5_7(); } else { thm_table5_8(); } } else { if i < 10 { thm_table5_9(); } else { thm_table5_10(); } } } else { if i < 13 { if i < 12 { thm_table5_11(); } else { thm_table5_12(); } } else { if i < 14 { thm_table5_13(); } else { thm_table5_14(); } } } } } else { if i < 22 { if i < 18 { if i < 16 { thm_table5_15(); } else { if i < 17 { thm_table5_16(); } else { thm_table5_17(); } } } else { if i < 20 { if i < 19 { thm_table5_18(); } else { thm_table5_19(); } } else { if i < 21 { thm_table5_20(); } else { thm_table5_21(); } } } } else { if i < 26 { if i < 24 { if i < 23 { thm_table5_22(); } else { thm_table5_23(); } } else { if i < 25 { thm_table5_24(); } else { thm_table5_25(); } } } else { if i < 28 { if i < 27 { thm_table5_26(); } else { thm_table5_27(); } } else { if i < 29 { thm_table5_28(); } else { thm_table5_29(); } } } } } } else { if i < 45 { if i < 37 { if i < 33 { if i < 31 { thm_table5_30(); } else { if i < 32 { thm_table5_31(); } else { thm_table5_32(); } } } else { if i < 35 { if i < 34 { thm_table5_33(); } else { thm_table5_34(); } } else { if i < 36 { thm_table5_35(); } else { thm_table5_36(); } } } } else { if i < 41 { if i < 39 { if i < 38 { thm_table5_37(); } else { thm_table5_38(); } } else { if i < 40 { thm_table5_39(); } else { thm_table5_40(); } } } else { if i < 43 { if i < 42 { thm_table5_41(); } else { thm_table5_42(); } } else { if i < 44 { thm_table5_43(); } else { thm_table5_44(); } } } } } else { if i < 53 { if i < 49 { if i < 47 { if i < 46 { thm_table5_45(); } else { thm_table5_46(); } } else { if i < 48 { thm_table5_47(); } else { thm_table5_48(); } } } else { if i < 51 { if i < 50 { thm_table5_49(); } else { thm_table5_50(); } } else { if i < 52 { thm_table5_51(); } else { thm_table5_52(); } } } } else { if i < 57 { if i < 55 { if i < 54 { thm_table5_53(); } else { thm_table5_54(); } } else { if i < 56 { thm_table5_55(); } else { thm_table5_56(); } } } else { if i < 59 { if i < 58 { thm_table5_57(); } else { thm_table5_58(); } } else { if i < 60 { thm_table5_59(); } else { thm_table5_60(); } } } } } } }
pub proof fn lemma_root5() ensures path5(0).0 == 0, path5(0).1 == 0, path5(0).3 { reveal(path5); assert(path5(0).0 == 0 && path5(0).1 == 0 && path5(0).3) by(compute_only); }
}
pub open spec fn rows(s: int) -> int { if s == 2 { 126 } else if s == 3 { 92 } else if s == 4 { 54 } else if s == 5 { 61 } else { 256 } }
pub open spec fn path(s: int, i: int) -> (int, int, int, bool) { if s == 2 { path2(i) } else if s == 3 { path3(i) } else if s == 4 { path4(i) } else if s == 5 { path5(i) } else { path1(i) } }
pub open spec fn ent(s: int, i: int, k: int) -> (Option<u8>, Option<u16>, u8) { if s == 2 { ent2(i, k) } else if s == 3 { ent3(i, k) } else if s == 4 { ent4(i, k) } else if s == 5 { ent5(i, k) } else { ent1(i, k) } }
pub proof fn lemma_table(s: int, i: int, k: int)
    requires 1 <= s <= 5, 0 <= i < rows(s), path(s, i).3, 0 <= k < pow2i(s)
    ensures row_ok(path(s, i)), match ent(s, i, k) {
        (_, Some(c), l) => sym_ok(s, path(s, i), k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < rows(s) && next_ok(s, path(s, i), k, path(s, j as int)),
        _ => false,
    }
{ reveal_with_fuel(pow2i, 6); if s == 2 { thm_table2(i, k); } else if s == 3 { thm_table3(i, k); } else if s == 4 { thm_table4(i, k); } else if s == 5 { thm_table5(i, k); } else { thm_table1(i, k); } }
pub proof fn lemma_root(s: int)
    requires 1 <= s <= 5
    ensures path(s, 0).0 == 0, path(s, 0).1 == 0, path(s, 0).3, rows(s) > 0
{ r1::lemma_root1(); r2::lemma_root2(); r3::lemma_root3(); r4::lemma_root4(); r5::lemma_root5(); }
} // verus!
}

verus! {
pub mod httlib_huffman {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
pub mod decoder {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
pub mod error {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
use std::error;
use std::fmt;
#[derive(PartialEq)]
pub enum DecoderError {
    InvalidInput,
}
}
pub mod reader {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
 broadcast use {lemma_shr, lemma_shl};
impl DecodeReader {
    pub closed spec fn ok(&self) -> bool { at_row(self.speed as int, self.id as int, self.tail_size as int, self.tail as int) && self.buf_size <= 16 && self.buf < pow2i(self.buf_size as int) }
    pub closed spec fn ready(&self) -> bool { self.ok() && self.buf_size < self.speed }
    pub closed spec fn fast(&self) -> int { self.speed as int }
    pub closed spec fn rest(&self) -> Seq<bool> { kept(self.tail_size as int, self.tail as int, self.buf_size as int, self.buf as int) }
    spec fn key(&self) -> int { take_key(self.speed as int, self.buf_size as int, self.buf as int) }
    spec fn entry(&self) -> (Option<u8>, Option<u16>, u8) { ent(self.speed as int, self.id as int, self.key()) }
} 
use super::{DecoderError};
pub(crate) struct DecodeReader {
    speed: usize,
    id: usize,
    buf: usize,
    buf_size: usize,
    tail: usize,
    tail_size: usize,
}
impl DecodeReader {
/*#F decoder::reader::DecodeReader::new#*/
pub fn new(speed: usize) -> (ret: Self) 
 ensures 1 <= speed <= 5 ==> ret.ready() && ret.fast() == speed && ret.rest() == Seq::<bool>::empty() 
{
        
 proof { lemma_pow2i_small(); if 1 <= speed <= 5 { lemma_root(speed as int); assert(kept(0, 0, 0, 0) =~= Seq::<bool>::empty()); } } 
Self {
            speed,
            id: 0,
            buf: 0,
            buf_size: 0,
            tail: 0,
            tail_size: 0,
        }
    }
/*#E#*/
/*#F decoder::reader::DecodeReader::decode#*/
pub fn decode(&mut self, byte: u8, dst: &mut Vec<u8>) -> (ret: Result<(), DecoderError>) 
 requires old(self).ready()
        ensures
            ret is Ok ==> final(self).ready() && final(self).fast() == old(self).fast() && gave(old(dst)@, final(dst)@, old(self).rest() + bits(8, byte as int), final(self).rest()),
            ret is Err ==> dead(old(self).rest() + bits(8, byte as int)) && old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@ 
{
        
 let ghost b0 = self.rest() + bits(8, byte as int);
        proof {
            lemma_pow2i_small(); lemma_pow2i_mono(self.buf_size as int, 5); lemma_pow2i_add(self.buf_size as int, 8);
            lemma_or(self.buf, 8, byte as usize);
            lemma_bits_join(self.buf_size as int, 8, self.buf as int, byte as int);
            assert(b0 =~= kept(self.tail_size as int, self.tail as int, self.buf_size + 8, self.buf * 256 + byte));
            lemma_gave_none(dst@, b0);
        } 
self.buf <<= 8;
        self.buf_size += 8;
        self.buf |= byte as usize;
        loop 
 invariant b0 == old(self).rest() + bits(8, byte as int), self.ok(), self.fast() == old(self).fast(), gave(old(dst)@, dst@, b0, self.rest())
            ensures self.ready(), self.fast() == old(self).fast(), gave(old(dst)@, dst@, b0, self.rest())
            decreases self.buf_size 
{
            if self.buf_size < self.speed {
                break;
            } else {
                
 let ghost (r1, d1, e) = (self.rest(), dst@, self.entry());
                proof { lemma_key(self.speed as int, self.buf_size as int, self.buf as int); lemma_entry(self.speed as int, self.id as int, self.key()); if e.1 == Some(256u16) { lemma_gave_eos(old(dst)@, d1, b0, r1); } } 
self.decode_next(dst)?;
            
 proof { if e.1 is Some { lemma_gave_push(old(dst)@, d1, b0, r1, e.1.unwrap() as u8, self.rest()); } } 
}
        }
        Ok(())
    }
/*#E#*/
/*#F decoder::reader::DecodeReader::finalize#*/
pub fn finalize(&mut self, dst: &mut Vec<u8>) -> (ret: Result<(), DecoderError>) 
 requires old(self).ready()
        ensures
            old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@,
            ret is Ok ==> exists|k: int| 0 <= k <= 7 && gave(old(dst)@, final(dst)@, old(self).rest(), #[trigger] ones(k)),
            ret is Err ==> fails(old(self).rest()) 
{
        
 let ghost (sp, id, bs, b, tsz, tl) = (self.speed as int, self.id as int, self.buf_size as int, self.buf as int, self.tail_size as int, self.tail as int);
        let ghost b0 = self.rest();
        let ghost sh = if bs == 0 { 0 } else { sp - bs };
        let ghost o = dst@;
        proof {
            lemma_pow2i_small(); lemma_pow2i_mono(bs, sp); lemma_pow2i_mono(sp, 5); lemma_pow2i_add(bs, sh); lemma_pow2i_mono(0, sh);
            assert((bs + sp - 1) / sp * sp == bs + sh) by { if bs == 0 { assert((bs + sp - 1) / sp == 0) by(nonlinear_arith) requires bs == 0, sp >= 1; } else { assert((bs + sp - 1) / sp == 1) by(nonlinear_arith) requires 1 <= bs < sp; } }
            assert(b * pow2i(sh) < pow2i(bs + sh)) by(nonlinear_arith) requires b < pow2i(bs), pow2i(sh) > 0, pow2i(bs + sh) == pow2i(bs) * pow2i(sh);
            lemma_gave_none(o, b0);
            vstd::arithmetic::div_mod::lemma_div_by_multiple(b, pow2i(sh));
            lemma_bits_len(tsz, tl); lemma_bits_len(bs, b);
            lemma_entry(sp, id, 0);
            if bs > 0 {
                let l = ent(sp, id, b * pow2i(sh)).2 as int;
                lemma_entry(sp, id, b * pow2i(sh));
                lemma_key_all(sp, b * pow2i(sh));
                if sh <= l { lemma_final_eos(sp, tsz, tl, bs, b, l); }
            }
            vstd::arithmetic::div_mod::lemma_small_mod(self.buf_size as nat, self.speed as nat);
        } 
let shift_len = crate::trust::ceil_div(self . buf_size as usize, self . speed as usize) * self.speed as usize - self.buf_size;
        self.buf <<= shift_len;
        self.buf_size += shift_len;
        if self.buf_size >= self.speed {
            if let Ok((_, _, leftover)) = self.find_target(self.buf) {
                if shift_len <= leftover as usize {
                    self.decode_next(dst)?;
                }
            }
        }
        
 proof {
            if self.buf_size == bs + sh && self.tail_size == tsz && dst@ == o { lemma_final_stuck(sp, id, bs, b); }
            else {
                let (_, e1, e2) = ent(sp, id, b * pow2i(sh));
                let (c, l) = (e1.unwrap(), e2 as int);
                lemma_pow2i_mono(0, sp); lemma_entry(sp, self.id as int, 0);
                assert(self.rest() =~= bits(l, self.buf as int));
                lemma_final_symbol(sp, tsz, tl, bs, b, c as int, l, self.buf as int);
                lemma_gave_push(o, o, b0, b0, c as u8, bits(l - sh, self.buf as int / pow2i(sh)));
                lemma_stuck_short(l - sh, self.buf as int / pow2i(sh));
            }
        } 
self.buf >>= shift_len;
        self.buf_size -= shift_len;
        
 proof {
            lemma_tail(self.tail_size as int, self.tail as int, self.buf_size as int, self.buf as int);
            lemma_or(self.tail, self.buf_size, self.buf);
            assert(bits(0, self.tail as int) + bits(self.buf_size as int, self.buf as int) =~= bits(self.buf_size as int, self.buf as int));
        } 
self.tail <<= self.buf_size;
        self.tail_size += self.buf_size;
        self.tail |= self.buf;
        self.buf = 0;
        self.buf_size = 0;
        
 proof { lemma_verdict(o, dst@, b0, self.tail_size as int, self.tail as int); lemma_pow2i_usize(self.tail_size); } 
if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 {
            return Err(DecoderError::InvalidInput);
        }
        self.tail = 0;
        self.tail_size = 0;
        Ok(())
    }
/*#E#*/
/*#F decoder::reader::DecodeReader::decode_next#*/
fn decode_next(&mut self, dst: &mut Vec<u8>) -> (ret: Result<(), DecoderError>) 
 requires old(self).ok(), old(self).buf_size >= old(self).speed
        ensures
            final(self).ok(), final(self).speed == old(self).speed, final(self).buf_size < old(self).buf_size,
            final(self).buf_size == old(self).buf_size - old(self).speed + old(self).entry().2,
            match old(self).entry().1 {
                Some(c) => old(self).rest() == code(c as int) + final(self).rest() && final(self).tail_size == 0 && (if c < 256 { ret is Ok && final(dst)@ == old(dst)@.push(c as u8) } else { ret is Err && c == 256 && final(dst)@ == old(dst)@ }),
                None => ret is Ok && old(self).rest() == final(self).rest() && final(dst)@ == old(dst)@,
            } 
{
        
 let ghost (sp, id, bs, b) = (self.speed as int, self.id as int, self.buf_size as int, self.buf as int);
        let ghost e = self.entry();
        let ghost l = e.2 as int;
        proof {
            lemma_key(sp, bs, b); lemma_entry(sp, id, self.key());
            match e.1 { Some(c) => { lemma_key_symbol(sp, id, bs, b, c as int, l); lemma_root(sp); }, None => { lemma_key_row(sp, id, bs, b, e.0.unwrap() as int); } }
            lemma_pow2i_small();
            lemma_shifts(sp, bs, b, l, self.tail as int, self.tail_size as int);
            lemma_pow2i_mono(0, bs);
            assert(kept(0, 0, bs - sp + l, b % pow2i(bs - sp + l)) =~= bits(bs - sp + l, b % pow2i(bs - sp + l)));
            lemma_or(self.tail, (sp - l) as usize, (self.key() / pow2i(l)) as usize);
            lemma_low_mask(self.buf, (bs - sp + l) as usize);
        } 
let key = self.buf >> self.buf_size - self.speed;
        let (next_id, ascii, leftover) = self.find_target(key)?;
        self.buf -= key >> leftover << self.buf_size - self.speed + leftover as usize;
        self.buf_size -= self.speed - leftover as usize;
        self.tail <<= self.speed - leftover as usize;
        self.tail |= key >> leftover;
        self.tail_size += self.speed - leftover as usize;
        if let Some(ascii) = ascii {
            self.id = 0;
            self.tail = 0;
            self.tail_size = 0;
            if ascii < 256 {
                dst.push(ascii as u8);
                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id) = next_id {
            self.id = next_id as usize;
            Ok(())
        } else {
            Err(DecoderError::InvalidInput)
        }
    }
/*#E#*/
/*#F decoder::reader::DecodeReader::find_target#*/
fn find_target(&self, key: usize) -> (ret: Result<(Option<u8>, Option<u16>, u8), DecoderError>) 
 requires 1 <= self.speed <= 5, self.id < rows(self.speed as int), key < pow2i(self.speed as int)
        ensures ret == Ok::<(Option<u8>, Option<u16>, u8), DecoderError>(ent(self.speed as int, self.id as int, key as int)) 
{
        
 proof { lemma_pow2i_small(); reveal(ent1); reveal(ent2); reveal(ent3); reveal(ent4); reveal(ent5); } 
match self.speed {
            2 => {
                match crate::httlib_huffman::decoder::table2::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            3 => {
                match crate::httlib_huffman::decoder::table3::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            4 => {
                match crate::httlib_huffman::decoder::table4::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            5 => {
                match crate::httlib_huffman::decoder::table5::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            _ => {
                match crate::httlib_huffman::decoder::table1::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            }
        }
    }
/*#E#*/
}
}
pub mod speed {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[derive(Clone, Copy, PartialEq)]
pub enum DecoderSpeed {
    OneBit = 1,
    TwoBits = 2,
    ThreeBits = 3,
    FourBits = 4,
    FiveBits = 5,
}
impl DecoderSpeed {
/*#F decoder::speed::DecoderSpeed::known#*/
pub fn known() -> (ret: Vec<DecoderSpeed>) {
        vec![
            DecoderSpeed::OneBit,
            DecoderSpeed::TwoBits,
            DecoderSpeed::ThreeBits,
            DecoderSpeed::FourBits,
            DecoderSpeed::FiveBits,
        ]
    }
/*#E#*/
}
}
pub mod table1 {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const DECODE_TABLE: [[(Option<u8>, Option<u16>, u8); 2]; 256] = [
    [
        (Some(66), None, 0),
        (Some(1), None, 0)
    ],
    [
        (Some(93), None, 0),
        (Some(2), None, 0)
    ],
    [
        (Some(104), None, 0),
        (Some(3), None, 0)
    ],
    [
        (Some(119), None, 0),
        (Some(4), None, 0)
    ],
    [
        (Some(144), None, 0),
        (Some(5), None, 0)
    ],
    [
        (Some(75), None, 0),
        (Some(6), None, 0)
    ],
    [
        (Some(123), None, 0),
        (Some(7), None, 0)
    ],
    [
        (Some(71), None, 0),
        (Some(8), None, 0)
    ],
    [
        (Some(77), None, 0),
        (Some(9), None, 0)
    ],
    [
        (Some(73), None, 0),
        (Some(10), None, 0)
    ],
    [
        (Some(11), None, 0),
        (Some(13), None, 0)
    ],
    [
        (Some(12), None, 0),
        (Some(102), None, 0)
    ],
    [
        (None, Some(0), 0),
        (None, Some(36), 0)
    ],
    [
        (Some(127), None, 0),
        (Some(14), None, 0)
    ],
    [
        (Some(128), None, 0),
        (Some(15), None, 0)
    ],
    [
        (Some(98), None, 0),
        (Some(16), None, 0)
    ],
    [
        (None, Some(123), 0),
        (Some(17), None, 0)
    ],
    [
        (Some(124), None, 0),
        (Some(18), None, 0)
    ],
    [
        (Some(150), None, 0),
        (Some(19), None, 0)
    ],
    [
        (Some(20), None, 0),
        (Some(25), None, 0)
    ],
    [
        (Some(199), None, 0),
        (Some(21), None, 0)
    ],
    [
        (Some(216), None, 0),
        (Some(22), None, 0)
    ],
    [
        (Some(23), None, 0),
        (Some(162), None, 0)
    ],
    [
        (Some(24), None, 0),
        (Some(161), None, 0)
    ],
    [
        (None, Some(1), 0),
        (None, Some(135), 0)
    ],
    [
        (Some(167), None, 0),
        (Some(26), None, 0)
    ],
    [
        (Some(41), None, 0),
        (Some(27), None, 0)
    ],
    [
        (Some(191), None, 0),
        (Some(28), None, 0)
    ],
    [
        (Some(211), None, 0),
        (Some(29), None, 0)
    ],
    [
        (Some(229), None, 0),
        (Some(30), None, 0)
    ],
    [
        (Some(31), None, 0),
        (Some(45), None, 0)
    ],
    [
        (Some(32), None, 0),
        (Some(38), None, 0)
    ],
    [
        (Some(33), None, 0),
        (Some(35), None, 0)
    ],
    [
        (None, Some(254), 0),
        (Some(34), None, 0)
    ],
    [
        (None, Some(2), 0),
        (None, Some(3), 0)
    ],
    [
        (Some(36), None, 0),
        (Some(37), None, 0)
    ],
    [
        (None, Some(4), 0),
        (None, Some(5), 0)
    ],
    [
        (None, Some(6), 0),
        (None, Some(7), 0)
    ],
    [
        (Some(39), None, 0),
        (Some(52), None, 0)
    ],
    [
        (Some(40), None, 0),
        (Some(51), None, 0)
    ],
    [
        (None, Some(8), 0),
        (None, Some(11), 0)
    ],
    [
        (Some(208), None, 0),
        (Some(42), None, 0)
    ],
    [
        (Some(43), None, 0),
        (Some(165), None, 0)
    ],
    [
        (None, Some(239), 0),
        (Some(44), None, 0)
    ],
    [
        (None, Some(9), 0),
        (None, Some(142), 0)
    ],
    [
        (Some(55), None, 0),
        (Some(46), None, 0)
    ],
    [
        (Some(63), None, 0),
        (Some(47), None, 0)
    ],
    [
        (Some(147), None, 0),
        (Some(48), None, 0)
    ],
    [
        (None, Some(249), 0),
        (Some(49), None, 0)
    ],
    [
        (Some(50), None, 0),
        (Some(59), None, 0)
    ],
    [
        (None, Some(10), 0),
        (None, Some(13), 0)
    ],
    [
        (None, Some(12), 0),
        (None, Some(14), 0)
    ],
    [
        (Some(53), None, 0),
        (Some(54), None, 0)
    ],
    [
        (None, Some(15), 0),
        (None, Some(16), 0)
    ],
    [
        (None, Some(17), 0),
        (None, Some(18), 0)
    ],
    [
        (Some(56), None, 0),
        (Some(60), None, 0)
    ],
    [
        (Some(57), None, 0),
        (Some(58), None, 0)
    ],
    [
        (None, Some(19), 0),
        (None, Some(20), 0)
    ],
    [
        (None, Some(21), 0),
        (None, Some(23), 0)
    ],
    [
        (None, Some(22), 0),
        (None, Some(256), 0)
    ],
    [
        (Some(61), None, 0),
        (Some(62), None, 0)
    ],
    [
        (None, Some(24), 0),
        (None, Some(25), 0)
    ],
    [
        (None, Some(26), 0),
        (None, Some(27), 0)
    ],
    [
        (Some(64), None, 0),
        (Some(65), None, 0)
    ],
    [
        (None, Some(28), 0),
        (None, Some(29), 0)
    ],
    [
        (None, Some(30), 0),
        (None, Some(31), 0)
    ],
    [
        (Some(85), None, 0),
        (Some(67), None, 0)
    ],
    [
        (Some(68), None, 0),
        (Some(82), None, 0)
    ],
    [
        (Some(143), None, 0),
        (Some(69), None, 0)
    ],
    [
        (Some(70), None, 0),
        (Some(81), None, 0)
    ],
    [
        (None, Some(32), 0),
        (None, Some(37), 0)
    ],
    [
        (Some(72), None, 0),
        (Some(79), None, 0)
    ],
    [
        (None, Some(33), 0),
        (None, Some(34), 0)
    ],
    [
        (None, Some(124), 0),
        (Some(74), None, 0)
    ],
    [
        (None, Some(35), 0),
        (None, Some(62), 0)
    ],
    [
        (Some(76), None, 0),
        (Some(80), None, 0)
    ],
    [
        (None, Some(38), 0),
        (None, Some(42), 0)
    ],
    [
        (None, Some(63), 0),
        (Some(78), None, 0)
    ],
    [
        (None, Some(39), 0),
        (None, Some(43), 0)
    ],
    [
        (None, Some(40), 0),
        (None, Some(41), 0)
    ],
    [
        (None, Some(44), 0),
        (None, Some(59), 0)
    ],
    [
        (None, Some(45), 0),
        (None, Some(46), 0)
    ],
    [
        (Some(83), None, 0),
        (Some(90), None, 0)
    ],
    [
        (Some(84), None, 0),
        (Some(89), None, 0)
    ],
    [
        (None, Some(47), 0),
        (None, Some(51), 0)
    ],
    [
        (Some(86), None, 0),
        (Some(130), None, 0)
    ],
    [
        (Some(87), None, 0),
        (Some(88), None, 0)
    ],
    [
        (None, Some(48), 0),
        (None, Some(49), 0)
    ],
    [
        (None, Some(50), 0),
        (None, Some(97), 0)
    ],
    [
        (None, Some(52), 0),
        (None, Some(53), 0)
    ],
    [
        (Some(91), None, 0),
        (Some(92), None, 0)
    ],
    [
        (None, Some(54), 0),
        (None, Some(55), 0)
    ],
    [
        (None, Some(56), 0),
        (None, Some(57), 0)
    ],
    [
        (Some(99), None, 0),
        (Some(94), None, 0)
    ],
    [
        (Some(138), None, 0),
        (Some(95), None, 0)
    ],
    [
        (Some(142), None, 0),
        (Some(96), None, 0)
    ],
    [
        (Some(97), None, 0),
        (Some(103), None, 0)
    ],
    [
        (None, Some(58), 0),
        (None, Some(66), 0)
    ],
    [
        (None, Some(60), 0),
        (None, Some(96), 0)
    ],
    [
        (Some(100), None, 0),
        (Some(132), None, 0)
    ],
    [
        (Some(101), None, 0),
        (Some(129), None, 0)
    ],
    [
        (None, Some(61), 0),
        (None, Some(65), 0)
    ],
    [
        (None, Some(64), 0),
        (None, Some(91), 0)
    ],
    [
        (None, Some(67), 0),
        (None, Some(68), 0)
    ],
    [
        (Some(105), None, 0),
        (Some(112), None, 0)
    ],
    [
        (Some(106), None, 0),
        (Some(109), None, 0)
    ],
    [
        (Some(107), None, 0),
        (Some(108), None, 0)
    ],
    [
        (None, Some(69), 0),
        (None, Some(70), 0)
    ],
    [
        (None, Some(71), 0),
        (None, Some(72), 0)
    ],
    [
        (Some(110), None, 0),
        (Some(111), None, 0)
    ],
    [
        (None, Some(73), 0),
        (None, Some(74), 0)
    ],
    [
        (None, Some(75), 0),
        (None, Some(76), 0)
    ],
    [
        (Some(113), None, 0),
        (Some(116), None, 0)
    ],
    [
        (Some(114), None, 0),
        (Some(115), None, 0)
    ],
    [
        (None, Some(77), 0),
        (None, Some(78), 0)
    ],
    [
        (None, Some(79), 0),
        (None, Some(80), 0)
    ],
    [
        (Some(117), None, 0),
        (Some(118), None, 0)
    ],
    [
        (None, Some(81), 0),
        (None, Some(82), 0)
    ],
    [
        (None, Some(83), 0),
        (None, Some(84), 0)
    ],
    [
        (Some(120), None, 0),
        (Some(136), None, 0)
    ],
    [
        (Some(121), None, 0),
        (Some(122), None, 0)
    ],
    [
        (None, Some(85), 0),
        (None, Some(86), 0)
    ],
    [
        (None, Some(87), 0),
        (None, Some(89), 0)
    ],
    [
        (None, Some(88), 0),
        (None, Some(90), 0)
    ],
    [
        (Some(125), None, 0),
        (Some(155), None, 0)
    ],
    [
        (Some(126), None, 0),
        (Some(148), None, 0)
    ],
    [
        (None, Some(92), 0),
        (None, Some(195), 0)
    ],
    [
        (None, Some(93), 0),
        (None, Some(126), 0)
    ],
    [
        (None, Some(94), 0),
        (None, Some(125), 0)
    ],
    [
        (None, Some(95), 0),
        (None, Some(98), 0)
    ],
    [
        (Some(131), None, 0),
        (Some(135), None, 0)
    ],
    [
        (None, Some(99), 0),
        (None, Some(101), 0)
    ],
    [
        (Some(133), None, 0),
        (Some(134), None, 0)
    ],
    [
        (None, Some(100), 0),
        (None, Some(102), 0)
    ],
    [
        (None, Some(103), 0),
        (None, Some(104), 0)
    ],
    [
        (None, Some(105), 0),
        (None, Some(111), 0)
    ],
    [
        (Some(137), None, 0),
        (Some(141), None, 0)
    ],
    [
        (None, Some(106), 0),
        (None, Some(107), 0)
    ],
    [
        (Some(139), None, 0),
        (Some(140), None, 0)
    ],
    [
        (None, Some(108), 0),
        (None, Some(109), 0)
    ],
    [
        (None, Some(110), 0),
        (None, Some(112), 0)
    ],
    [
        (None, Some(113), 0),
        (None, Some(118), 0)
    ],
    [
        (None, Some(114), 0),
        (None, Some(117), 0)
    ],
    [
        (None, Some(115), 0),
        (None, Some(116), 0)
    ],
    [
        (Some(145), None, 0),
        (Some(146), None, 0)
    ],
    [
        (None, Some(119), 0),
        (None, Some(120), 0)
    ],
    [
        (None, Some(121), 0),
        (None, Some(122), 0)
    ],
    [
        (None, Some(127), 0),
        (None, Some(220), 0)
    ],
    [
        (None, Some(208), 0),
        (Some(149), None, 0)
    ],
    [
        (None, Some(128), 0),
        (None, Some(130), 0)
    ],
    [
        (Some(196), None, 0),
        (Some(151), None, 0)
    ],
    [
        (Some(152), None, 0),
        (Some(178), None, 0)
    ],
    [
        (Some(153), None, 0),
        (Some(158), None, 0)
    ],
    [
        (None, Some(230), 0),
        (Some(154), None, 0)
    ],
    [
        (None, Some(129), 0),
        (None, Some(132), 0)
    ],
    [
        (Some(156), None, 0),
        (Some(175), None, 0)
    ],
    [
        (Some(157), None, 0),
        (Some(204), None, 0)
    ],
    [
        (None, Some(131), 0),
        (None, Some(162), 0)
    ],
    [
        (Some(159), None, 0),
        (Some(160), None, 0)
    ],
    [
        (None, Some(133), 0),
        (None, Some(134), 0)
    ],
    [
        (None, Some(136), 0),
        (None, Some(146), 0)
    ],
    [
        (None, Some(137), 0),
        (None, Some(138), 0)
    ],
    [
        (Some(163), None, 0),
        (Some(164), None, 0)
    ],
    [
        (None, Some(139), 0),
        (None, Some(140), 0)
    ],
    [
        (None, Some(141), 0),
        (None, Some(143), 0)
    ],
    [
        (Some(166), None, 0),
        (Some(171), None, 0)
    ],
    [
        (None, Some(144), 0),
        (None, Some(145), 0)
    ],
    [
        (Some(168), None, 0),
        (Some(185), None, 0)
    ],
    [
        (Some(169), None, 0),
        (Some(173), None, 0)
    ],
    [
        (Some(170), None, 0),
        (Some(172), None, 0)
    ],
    [
        (None, Some(147), 0),
        (None, Some(149), 0)
    ],
    [
        (None, Some(148), 0),
        (None, Some(159), 0)
    ],
    [
        (None, Some(150), 0),
        (None, Some(151), 0)
    ],
    [
        (Some(174), None, 0),
        (Some(181), None, 0)
    ],
    [
        (None, Some(152), 0),
        (None, Some(155), 0)
    ],
    [
        (Some(241), None, 0),
        (Some(176), None, 0)
    ],
    [
        (Some(177), None, 0),
        (Some(188), None, 0)
    ],
    [
        (None, Some(153), 0),
        (None, Some(161), 0)
    ],
    [
        (Some(179), None, 0),
        (Some(183), None, 0)
    ],
    [
        (Some(180), None, 0),
        (Some(182), None, 0)
    ],
    [
        (None, Some(154), 0),
        (None, Some(156), 0)
    ],
    [
        (None, Some(157), 0),
        (None, Some(158), 0)
    ],
    [
        (None, Some(160), 0),
        (None, Some(163), 0)
    ],
    [
        (Some(184), None, 0),
        (Some(190), None, 0)
    ],
    [
        (None, Some(164), 0),
        (None, Some(169), 0)
    ],
    [
        (Some(186), None, 0),
        (Some(194), None, 0)
    ],
    [
        (Some(187), None, 0),
        (Some(189), None, 0)
    ],
    [
        (None, Some(165), 0),
        (None, Some(166), 0)
    ],
    [
        (None, Some(167), 0),
        (None, Some(172), 0)
    ],
    [
        (None, Some(168), 0),
        (None, Some(174), 0)
    ],
    [
        (None, Some(170), 0),
        (None, Some(173), 0)
    ],
    [
        (Some(192), None, 0),
        (Some(218), None, 0)
    ],
    [
        (Some(193), None, 0),
        (Some(234), None, 0)
    ],
    [
        (None, Some(171), 0),
        (None, Some(206), 0)
    ],
    [
        (Some(195), None, 0),
        (Some(203), None, 0)
    ],
    [
        (None, Some(175), 0),
        (None, Some(180), 0)
    ],
    [
        (Some(197), None, 0),
        (Some(235), None, 0)
    ],
    [
        (Some(198), None, 0),
        (Some(202), None, 0)
    ],
    [
        (None, Some(176), 0),
        (None, Some(177), 0)
    ],
    [
        (Some(200), None, 0),
        (Some(206), None, 0)
    ],
    [
        (Some(201), None, 0),
        (Some(205), None, 0)
    ],
    [
        (None, Some(178), 0),
        (None, Some(181), 0)
    ],
    [
        (None, Some(179), 0),
        (None, Some(209), 0)
    ],
    [
        (None, Some(182), 0),
        (None, Some(183), 0)
    ],
    [
        (None, Some(184), 0),
        (None, Some(194), 0)
    ],
    [
        (None, Some(185), 0),
        (None, Some(186), 0)
    ],
    [
        (Some(207), None, 0),
        (Some(210), None, 0)
    ],
    [
        (None, Some(187), 0),
        (None, Some(189), 0)
    ],
    [
        (Some(209), None, 0),
        (Some(215), None, 0)
    ],
    [
        (None, Some(188), 0),
        (None, Some(191), 0)
    ],
    [
        (None, Some(190), 0),
        (None, Some(196), 0)
    ],
    [
        (Some(212), None, 0),
        (Some(224), None, 0)
    ],
    [
        (Some(213), None, 0),
        (Some(222), None, 0)
    ],
    [
        (Some(214), None, 0),
        (Some(221), None, 0)
    ],
    [
        (None, Some(192), 0),
        (None, Some(193), 0)
    ],
    [
        (None, Some(197), 0),
        (None, Some(231), 0)
    ],
    [
        (Some(217), None, 0),
        (Some(243), None, 0)
    ],
    [
        (None, Some(198), 0),
        (None, Some(228), 0)
    ],
    [
        (Some(245), None, 0),
        (Some(219), None, 0)
    ],
    [
        (Some(220), None, 0),
        (Some(244), None, 0)
    ],
    [
        (None, Some(199), 0),
        (None, Some(207), 0)
    ],
    [
        (None, Some(200), 0),
        (None, Some(201), 0)
    ],
    [
        (Some(223), None, 0),
        (Some(228), None, 0)
    ],
    [
        (None, Some(202), 0),
        (None, Some(205), 0)
    ],
    [
        (Some(237), None, 0),
        (Some(225), None, 0)
    ],
    [
        (Some(248), None, 0),
        (Some(226), None, 0)
    ],
    [
        (None, Some(255), 0),
        (Some(227), None, 0)
    ],
    [
        (None, Some(203), 0),
        (None, Some(204), 0)
    ],
    [
        (None, Some(210), 0),
        (None, Some(213), 0)
    ],
    [
        (Some(230), None, 0),
        (Some(249), None, 0)
    ],
    [
        (Some(231), None, 0),
        (Some(239), None, 0)
    ],
    [
        (Some(232), None, 0),
        (Some(233), None, 0)
    ],
    [
        (None, Some(211), 0),
        (None, Some(212), 0)
    ],
    [
        (None, Some(214), 0),
        (None, Some(221), 0)
    ],
    [
        (None, Some(215), 0),
        (None, Some(225), 0)
    ],
    [
        (Some(236), None, 0),
        (Some(242), None, 0)
    ],
    [
        (None, Some(216), 0),
        (None, Some(217), 0)
    ],
    [
        (Some(238), None, 0),
        (Some(246), None, 0)
    ],
    [
        (None, Some(218), 0),
        (None, Some(219), 0)
    ],
    [
        (Some(240), None, 0),
        (Some(247), None, 0)
    ],
    [
        (None, Some(222), 0),
        (None, Some(223), 0)
    ],
    [
        (None, Some(224), 0),
        (None, Some(226), 0)
    ],
    [
        (None, Some(227), 0),
        (None, Some(229), 0)
    ],
    [
        (None, Some(232), 0),
        (None, Some(233), 0)
    ],
    [
        (None, Some(234), 0),
        (None, Some(235), 0)
    ],
    [
        (None, Some(236), 0),
        (None, Some(237), 0)
    ],
    [
        (None, Some(238), 0),
        (None, Some(240), 0)
    ],
    [
        (None, Some(241), 0),
        (None, Some(244), 0)
    ],
    [
        (None, Some(242), 0),
        (None, Some(243), 0)
    ],
    [
        (Some(250), None, 0),
        (Some(253), None, 0)
    ],
    [
        (Some(251), None, 0),
        (Some(252), None, 0)
    ],
    [
        (None, Some(245), 0),
        (None, Some(246), 0)
    ],
    [
        (None, Some(247), 0),
        (None, Some(248), 0)
    ],
    [
        (Some(254), None, 0),
        (Some(255), None, 0)
    ],
    [
        (None, Some(250), 0),
        (None, Some(251), 0)
    ],
    [
        (None, Some(252), 0),
        (None, Some(253), 0)
    ]
];
}
pub mod table2 {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const DECODE_TABLE: [[(Option<u8>, Option<u16>, u8); 4]; 126] = [
    [
        (Some(36), None, 0),
        (Some(29), None, 0),
        (Some(40), None, 0),
        (Some(1), None, 0)
    ],
    [
        (Some(47), None, 0),
        (Some(52), None, 0),
        (Some(57), None, 0),
        (Some(2), None, 0)
    ],
    [
        (Some(70), None, 0),
        (Some(71), None, 0),
        (Some(33), None, 0),
        (Some(3), None, 0)
    ],
    [
        (None, Some(88), 0),
        (None, Some(90), 0),
        (Some(31), None, 0),
        (Some(4), None, 0)
    ],
    [
        (None, Some(63), 0),
        (Some(34), None, 0),
        (Some(32), None, 0),
        (Some(5), None, 0)
    ],
    [
        (Some(6), None, 0),
        (Some(45), None, 0),
        (Some(62), None, 0),
        (Some(7), None, 0)
    ],
    [
        (None, Some(0), 1),
        (None, Some(0), 1),
        (None, Some(36), 1),
        (None, Some(36), 1)
    ],
    [
        (None, Some(94), 0),
        (None, Some(125), 0),
        (Some(43), None, 0),
        (Some(8), None, 0)
    ],
    [
        (None, Some(123), 1),
        (None, Some(123), 1),
        (Some(60), None, 0),
        (Some(9), None, 0)
    ],
    [
        (Some(96), None, 0),
        (Some(73), None, 0),
        (Some(10), None, 0),
        (Some(13), None, 0)
    ],
    [
        (Some(98), None, 0),
        (Some(101), None, 0),
        (Some(106), None, 0),
        (Some(11), None, 0)
    ],
    [
        (Some(12), None, 0),
        (Some(77), None, 0),
        (Some(78), None, 0),
        (Some(79), None, 0)
    ],
    [
        (None, Some(1), 1),
        (None, Some(1), 1),
        (None, Some(135), 1),
        (None, Some(135), 1)
    ],
    [
        (Some(81), None, 0),
        (Some(90), None, 0),
        (Some(20), None, 0),
        (Some(14), None, 0)
    ],
    [
        (Some(94), None, 0),
        (Some(107), None, 0),
        (Some(103), None, 0),
        (Some(15), None, 0)
    ],
    [
        (Some(112), None, 0),
        (Some(121), None, 0),
        (Some(16), None, 0),
        (Some(22), None, 0)
    ],
    [
        (Some(17), None, 0),
        (Some(18), None, 0),
        (Some(19), None, 0),
        (Some(25), None, 0)
    ],
    [
        (None, Some(254), 1),
        (None, Some(254), 1),
        (None, Some(2), 0),
        (None, Some(3), 0)
    ],
    [
        (None, Some(4), 0),
        (None, Some(5), 0),
        (None, Some(6), 0),
        (None, Some(7), 0)
    ],
    [
        (None, Some(8), 0),
        (None, Some(11), 0),
        (None, Some(12), 0),
        (None, Some(14), 0)
    ],
    [
        (Some(102), None, 0),
        (Some(105), None, 0),
        (Some(21), None, 0),
        (Some(80), None, 0)
    ],
    [
        (None, Some(239), 1),
        (None, Some(239), 1),
        (None, Some(9), 0),
        (None, Some(142), 0)
    ],
    [
        (Some(26), None, 0),
        (Some(27), None, 0),
        (Some(28), None, 0),
        (Some(23), None, 0)
    ],
    [
        (None, Some(127), 0),
        (None, Some(220), 0),
        (None, Some(249), 0),
        (Some(24), None, 0)
    ],
    [
        (None, Some(10), 0),
        (None, Some(13), 0),
        (None, Some(22), 0),
        (None, Some(256), 0)
    ],
    [
        (None, Some(15), 0),
        (None, Some(16), 0),
        (None, Some(17), 0),
        (None, Some(18), 0)
    ],
    [
        (None, Some(19), 0),
        (None, Some(20), 0),
        (None, Some(21), 0),
        (None, Some(23), 0)
    ],
    [
        (None, Some(24), 0),
        (None, Some(25), 0),
        (None, Some(26), 0),
        (None, Some(27), 0)
    ],
    [
        (None, Some(28), 0),
        (None, Some(29), 0),
        (None, Some(30), 0),
        (None, Some(31), 0)
    ],
    [
        (Some(69), None, 0),
        (Some(30), None, 0),
        (Some(35), None, 0),
        (Some(39), None, 0)
    ],
    [
        (None, Some(32), 0),
        (None, Some(37), 0),
        (None, Some(45), 0),
        (None, Some(46), 0)
    ],
    [
        (None, Some(33), 0),
        (None, Some(34), 0),
        (None, Some(40), 0),
        (None, Some(41), 0)
    ],
    [
        (None, Some(124), 1),
        (None, Some(124), 1),
        (None, Some(35), 0),
        (None, Some(62), 0)
    ],
    [
        (None, Some(38), 0),
        (None, Some(42), 0),
        (None, Some(44), 0),
        (None, Some(59), 0)
    ],
    [
        (None, Some(39), 1),
        (None, Some(39), 1),
        (None, Some(43), 1),
        (None, Some(43), 1)
    ],
    [
        (None, Some(47), 0),
        (None, Some(51), 0),
        (None, Some(52), 0),
        (None, Some(53), 0)
    ],
    [
        (Some(37), None, 0),
        (Some(38), None, 0),
        (Some(63), None, 0),
        (Some(65), None, 0)
    ],
    [
        (None, Some(48), 1),
        (None, Some(48), 1),
        (None, Some(49), 1),
        (None, Some(49), 1)
    ],
    [
        (None, Some(50), 1),
        (None, Some(50), 1),
        (None, Some(97), 1),
        (None, Some(97), 1)
    ],
    [
        (None, Some(54), 0),
        (None, Some(55), 0),
        (None, Some(56), 0),
        (None, Some(57), 0)
    ],
    [
        (Some(44), None, 0),
        (Some(64), None, 0),
        (Some(67), None, 0),
        (Some(41), None, 0)
    ],
    [
        (None, Some(114), 0),
        (None, Some(117), 0),
        (Some(42), None, 0),
        (Some(46), None, 0)
    ],
    [
        (None, Some(58), 1),
        (None, Some(58), 1),
        (None, Some(66), 1),
        (None, Some(66), 1)
    ],
    [
        (None, Some(60), 1),
        (None, Some(60), 1),
        (None, Some(96), 1),
        (None, Some(96), 1)
    ],
    [
        (None, Some(61), 0),
        (None, Some(65), 0),
        (None, Some(95), 0),
        (None, Some(98), 0)
    ],
    [
        (None, Some(64), 1),
        (None, Some(64), 1),
        (None, Some(91), 1),
        (None, Some(91), 1)
    ],
    [
        (None, Some(67), 1),
        (None, Some(67), 1),
        (None, Some(68), 1),
        (None, Some(68), 1)
    ],
    [
        (Some(48), None, 0),
        (Some(49), None, 0),
        (Some(50), None, 0),
        (Some(51), None, 0)
    ],
    [
        (None, Some(69), 1),
        (None, Some(69), 1),
        (None, Some(70), 1),
        (None, Some(70), 1)
    ],
    [
        (None, Some(71), 1),
        (None, Some(71), 1),
        (None, Some(72), 1),
        (None, Some(72), 1)
    ],
    [
        (None, Some(73), 1),
        (None, Some(73), 1),
        (None, Some(74), 1),
        (None, Some(74), 1)
    ],
    [
        (None, Some(75), 1),
        (None, Some(75), 1),
        (None, Some(76), 1),
        (None, Some(76), 1)
    ],
    [
        (Some(53), None, 0),
        (Some(54), None, 0),
        (Some(55), None, 0),
        (Some(56), None, 0)
    ],
    [
        (None, Some(77), 1),
        (None, Some(77), 1),
        (None, Some(78), 1),
        (None, Some(78), 1)
    ],
    [
        (None, Some(79), 1),
        (None, Some(79), 1),
        (None, Some(80), 1),
        (None, Some(80), 1)
    ],
    [
        (None, Some(81), 1),
        (None, Some(81), 1),
        (None, Some(82), 1),
        (None, Some(82), 1)
    ],
    [
        (None, Some(83), 1),
        (None, Some(83), 1),
        (None, Some(84), 1),
        (None, Some(84), 1)
    ],
    [
        (Some(58), None, 0),
        (Some(59), None, 0),
        (Some(66), None, 0),
        (Some(68), None, 0)
    ],
    [
        (None, Some(85), 1),
        (None, Some(85), 1),
        (None, Some(86), 1),
        (None, Some(86), 1)
    ],
    [
        (None, Some(87), 1),
        (None, Some(87), 1),
        (None, Some(89), 1),
        (None, Some(89), 1)
    ],
    [
        (Some(61), None, 0),
        (Some(72), None, 0),
        (Some(75), None, 0),
        (Some(85), None, 0)
    ],
    [
        (None, Some(92), 1),
        (None, Some(92), 1),
        (None, Some(195), 1),
        (None, Some(195), 1)
    ],
    [
        (None, Some(93), 1),
        (None, Some(93), 1),
        (None, Some(126), 1),
        (None, Some(126), 1)
    ],
    [
        (None, Some(99), 1),
        (None, Some(99), 1),
        (None, Some(101), 1),
        (None, Some(101), 1)
    ],
    [
        (None, Some(100), 0),
        (None, Some(102), 0),
        (None, Some(103), 0),
        (None, Some(104), 0)
    ],
    [
        (None, Some(105), 1),
        (None, Some(105), 1),
        (None, Some(111), 1),
        (None, Some(111), 1)
    ],
    [
        (None, Some(106), 1),
        (None, Some(106), 1),
        (None, Some(107), 1),
        (None, Some(107), 1)
    ],
    [
        (None, Some(108), 0),
        (None, Some(109), 0),
        (None, Some(110), 0),
        (None, Some(112), 0)
    ],
    [
        (None, Some(113), 1),
        (None, Some(113), 1),
        (None, Some(118), 1),
        (None, Some(118), 1)
    ],
    [
        (None, Some(115), 1),
        (None, Some(115), 1),
        (None, Some(116), 1),
        (None, Some(116), 1)
    ],
    [
        (None, Some(119), 1),
        (None, Some(119), 1),
        (None, Some(120), 1),
        (None, Some(120), 1)
    ],
    [
        (None, Some(121), 1),
        (None, Some(121), 1),
        (None, Some(122), 1),
        (None, Some(122), 1)
    ],
    [
        (None, Some(208), 1),
        (None, Some(208), 1),
        (None, Some(128), 0),
        (None, Some(130), 0)
    ],
    [
        (Some(74), None, 0),
        (Some(76), None, 0),
        (Some(87), None, 0),
        (Some(89), None, 0)
    ],
    [
        (None, Some(230), 1),
        (None, Some(230), 1),
        (None, Some(129), 0),
        (None, Some(132), 0)
    ],
    [
        (None, Some(131), 0),
        (None, Some(162), 0),
        (None, Some(184), 0),
        (None, Some(194), 0)
    ],
    [
        (None, Some(133), 0),
        (None, Some(134), 0),
        (None, Some(136), 0),
        (None, Some(146), 0)
    ],
    [
        (None, Some(137), 1),
        (None, Some(137), 1),
        (None, Some(138), 1),
        (None, Some(138), 1)
    ],
    [
        (None, Some(139), 1),
        (None, Some(139), 1),
        (None, Some(140), 1),
        (None, Some(140), 1)
    ],
    [
        (None, Some(141), 1),
        (None, Some(141), 1),
        (None, Some(143), 1),
        (None, Some(143), 1)
    ],
    [
        (None, Some(144), 0),
        (None, Some(145), 0),
        (None, Some(148), 0),
        (None, Some(159), 0)
    ],
    [
        (Some(82), None, 0),
        (Some(83), None, 0),
        (Some(84), None, 0),
        (Some(88), None, 0)
    ],
    [
        (None, Some(147), 1),
        (None, Some(147), 1),
        (None, Some(149), 1),
        (None, Some(149), 1)
    ],
    [
        (None, Some(150), 1),
        (None, Some(150), 1),
        (None, Some(151), 1),
        (None, Some(151), 1)
    ],
    [
        (None, Some(152), 1),
        (None, Some(152), 1),
        (None, Some(155), 1),
        (None, Some(155), 1)
    ],
    [
        (None, Some(224), 0),
        (None, Some(226), 0),
        (Some(86), None, 0),
        (Some(92), None, 0)
    ],
    [
        (None, Some(153), 1),
        (None, Some(153), 1),
        (None, Some(161), 1),
        (None, Some(161), 1)
    ],
    [
        (None, Some(154), 0),
        (None, Some(156), 0),
        (None, Some(160), 0),
        (None, Some(163), 0)
    ],
    [
        (None, Some(157), 1),
        (None, Some(157), 1),
        (None, Some(158), 1),
        (None, Some(158), 1)
    ],
    [
        (None, Some(164), 0),
        (None, Some(169), 0),
        (None, Some(170), 0),
        (None, Some(173), 0)
    ],
    [
        (Some(91), None, 0),
        (Some(93), None, 0),
        (Some(95), None, 0),
        (Some(100), None, 0)
    ],
    [
        (None, Some(165), 1),
        (None, Some(165), 1),
        (None, Some(166), 1),
        (None, Some(166), 1)
    ],
    [
        (None, Some(167), 1),
        (None, Some(167), 1),
        (None, Some(172), 1),
        (None, Some(172), 1)
    ],
    [
        (None, Some(168), 1),
        (None, Some(168), 1),
        (None, Some(174), 1),
        (None, Some(174), 1)
    ],
    [
        (None, Some(171), 0),
        (None, Some(206), 0),
        (None, Some(215), 0),
        (None, Some(225), 0)
    ],
    [
        (None, Some(175), 1),
        (None, Some(175), 1),
        (None, Some(180), 1),
        (None, Some(180), 1)
    ],
    [
        (Some(97), None, 0),
        (Some(99), None, 0),
        (Some(115), None, 0),
        (Some(118), None, 0)
    ],
    [
        (None, Some(176), 1),
        (None, Some(176), 1),
        (None, Some(177), 1),
        (None, Some(177), 1)
    ],
    [
        (None, Some(178), 0),
        (None, Some(181), 0),
        (None, Some(185), 0),
        (None, Some(186), 0)
    ],
    [
        (None, Some(179), 1),
        (None, Some(179), 1),
        (None, Some(209), 1),
        (None, Some(209), 1)
    ],
    [
        (None, Some(182), 1),
        (None, Some(182), 1),
        (None, Some(183), 1),
        (None, Some(183), 1)
    ],
    [
        (None, Some(187), 0),
        (None, Some(189), 0),
        (None, Some(190), 0),
        (None, Some(196), 0)
    ],
    [
        (None, Some(188), 1),
        (None, Some(188), 1),
        (None, Some(191), 1),
        (None, Some(191), 1)
    ],
    [
        (Some(104), None, 0),
        (Some(109), None, 0),
        (Some(116), None, 0),
        (Some(110), None, 0)
    ],
    [
        (None, Some(192), 0),
        (None, Some(193), 0),
        (None, Some(200), 0),
        (None, Some(201), 0)
    ],
    [
        (None, Some(197), 1),
        (None, Some(197), 1),
        (None, Some(231), 1),
        (None, Some(231), 1)
    ],
    [
        (None, Some(198), 0),
        (None, Some(228), 0),
        (None, Some(232), 0),
        (None, Some(233), 0)
    ],
    [
        (None, Some(236), 0),
        (None, Some(237), 0),
        (Some(108), None, 0),
        (Some(119), None, 0)
    ],
    [
        (None, Some(199), 1),
        (None, Some(199), 1),
        (None, Some(207), 1),
        (None, Some(207), 1)
    ],
    [
        (None, Some(202), 0),
        (None, Some(205), 0),
        (None, Some(210), 0),
        (None, Some(213), 0)
    ],
    [
        (None, Some(242), 0),
        (None, Some(243), 0),
        (None, Some(255), 0),
        (Some(111), None, 0)
    ],
    [
        (None, Some(203), 1),
        (None, Some(203), 1),
        (None, Some(204), 1),
        (None, Some(204), 1)
    ],
    [
        (Some(113), None, 0),
        (Some(114), None, 0),
        (Some(117), None, 0),
        (Some(120), None, 0)
    ],
    [
        (None, Some(211), 1),
        (None, Some(211), 1),
        (None, Some(212), 1),
        (None, Some(212), 1)
    ],
    [
        (None, Some(214), 1),
        (None, Some(214), 1),
        (None, Some(221), 1),
        (None, Some(221), 1)
    ],
    [
        (None, Some(216), 1),
        (None, Some(216), 1),
        (None, Some(217), 1),
        (None, Some(217), 1)
    ],
    [
        (None, Some(218), 0),
        (None, Some(219), 0),
        (None, Some(238), 0),
        (None, Some(240), 0)
    ],
    [
        (None, Some(222), 1),
        (None, Some(222), 1),
        (None, Some(223), 1),
        (None, Some(223), 1)
    ],
    [
        (None, Some(227), 1),
        (None, Some(227), 1),
        (None, Some(229), 1),
        (None, Some(229), 1)
    ],
    [
        (None, Some(234), 1),
        (None, Some(234), 1),
        (None, Some(235), 1),
        (None, Some(235), 1)
    ],
    [
        (None, Some(241), 1),
        (None, Some(241), 1),
        (None, Some(244), 1),
        (None, Some(244), 1)
    ],
    [
        (Some(122), None, 0),
        (Some(123), None, 0),
        (Some(124), None, 0),
        (Some(125), None, 0)
    ],
    [
        (None, Some(245), 1),
        (None, Some(245), 1),
        (None, Some(246), 1),
        (None, Some(246), 1)
    ],
    [
        (None, Some(247), 1),
        (None, Some(247), 1),
        (None, Some(248), 1),
        (None, Some(248), 1)
    ],
    [
        (None, Some(250), 1),
        (None, Some(250), 1),
        (None, Some(251), 1),
        (None, Some(251), 1)
    ],
    [
        (None, Some(252), 1),
        (None, Some(252), 1),
        (None, Some(253), 1),
        (None, Some(253), 1)
    ]
];
}
pub mod table3 {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const DECODE_TABLE: [[(Option<u8>, Option<u16>, u8); 8]; 92] = [
    [
        (Some(34), None, 0),
        (Some(53), None, 0),
        (Some(28), None, 0),
        (Some(33), None, 0),
        (Some(37), None, 0),
        (Some(35), None, 0),
        (Some(40), None, 0),
        (Some(1), None, 0)
    ],
    [
        (Some(49), None, 0),
        (Some(50), None, 0),
        (Some(54), None, 0),
        (Some(55), None, 0),
        (Some(56), None, 0),
        (Some(57), None, 0),
        (Some(30), None, 0),
        (Some(2), None, 0)
    ],
    [
        (None, Some(88), 1),
        (None, Some(88), 1),
        (None, Some(90), 1),
        (None, Some(90), 1),
        (Some(29), None, 0),
        (Some(32), None, 0),
        (Some(31), None, 0),
        (Some(3), None, 0)
    ],
    [
        (None, Some(124), 1),
        (None, Some(124), 1),
        (None, Some(35), 0),
        (None, Some(62), 0),
        (Some(4), None, 0),
        (Some(38), None, 0),
        (Some(52), None, 0),
        (Some(5), None, 0)
    ],
    [
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(36), 2),
        (None, Some(36), 2),
        (None, Some(36), 2),
        (None, Some(36), 2)
    ],
    [
        (None, Some(94), 1),
        (None, Some(94), 1),
        (None, Some(125), 1),
        (None, Some(125), 1),
        (None, Some(60), 0),
        (None, Some(96), 0),
        (None, Some(123), 0),
        (Some(6), None, 0)
    ],
    [
        (Some(51), None, 0),
        (Some(59), None, 0),
        (Some(62), None, 0),
        (Some(68), None, 0),
        (Some(76), None, 0),
        (Some(60), None, 0),
        (Some(7), None, 0),
        (Some(9), None, 0)
    ],
    [
        (Some(77), None, 0),
        (Some(78), None, 0),
        (Some(79), None, 0),
        (Some(81), None, 0),
        (Some(83), None, 0),
        (Some(89), None, 0),
        (Some(8), None, 0),
        (Some(65), None, 0)
    ],
    [
        (None, Some(1), 1),
        (None, Some(1), 1),
        (None, Some(135), 1),
        (None, Some(135), 1),
        (None, Some(137), 1),
        (None, Some(137), 1),
        (None, Some(138), 1),
        (None, Some(138), 1)
    ],
    [
        (Some(66), None, 0),
        (Some(67), None, 0),
        (Some(72), None, 0),
        (Some(75), None, 0),
        (Some(80), None, 0),
        (Some(16), None, 0),
        (Some(74), None, 0),
        (Some(10), None, 0)
    ],
    [
        (Some(82), None, 0),
        (Some(85), None, 0),
        (Some(88), None, 0),
        (Some(86), None, 0),
        (Some(87), None, 0),
        (Some(91), None, 0),
        (Some(11), None, 0),
        (Some(17), None, 0)
    ],
    [
        (None, Some(254), 0),
        (Some(12), None, 0),
        (Some(13), None, 0),
        (Some(14), None, 0),
        (Some(15), None, 0),
        (Some(19), None, 0),
        (Some(20), None, 0),
        (Some(21), None, 0)
    ],
    [
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(3), 2),
        (None, Some(3), 2),
        (None, Some(3), 2),
        (None, Some(3), 2)
    ],
    [
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(5), 2),
        (None, Some(5), 2),
        (None, Some(5), 2),
        (None, Some(5), 2)
    ],
    [
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(7), 2),
        (None, Some(7), 2),
        (None, Some(7), 2),
        (None, Some(7), 2)
    ],
    [
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(11), 2),
        (None, Some(11), 2),
        (None, Some(11), 2),
        (None, Some(11), 2)
    ],
    [
        (None, Some(239), 1),
        (None, Some(239), 1),
        (None, Some(9), 0),
        (None, Some(142), 0),
        (None, Some(144), 0),
        (None, Some(145), 0),
        (None, Some(148), 0),
        (None, Some(159), 0)
    ],
    [
        (Some(22), None, 0),
        (Some(23), None, 0),
        (Some(24), None, 0),
        (Some(25), None, 0),
        (Some(26), None, 0),
        (Some(27), None, 0),
        (Some(58), None, 0),
        (Some(18), None, 0)
    ],
    [
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(10), 0),
        (None, Some(13), 0),
        (None, Some(22), 0),
        (None, Some(256), 0)
    ],
    [
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(14), 2),
        (None, Some(14), 2),
        (None, Some(14), 2),
        (None, Some(14), 2)
    ],
    [
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(16), 2),
        (None, Some(16), 2),
        (None, Some(16), 2),
        (None, Some(16), 2)
    ],
    [
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(18), 2),
        (None, Some(18), 2),
        (None, Some(18), 2),
        (None, Some(18), 2)
    ],
    [
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(20), 2),
        (None, Some(20), 2),
        (None, Some(20), 2),
        (None, Some(20), 2)
    ],
    [
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(23), 2),
        (None, Some(23), 2),
        (None, Some(23), 2),
        (None, Some(23), 2)
    ],
    [
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(25), 2),
        (None, Some(25), 2),
        (None, Some(25), 2),
        (None, Some(25), 2)
    ],
    [
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(27), 2),
        (None, Some(27), 2),
        (None, Some(27), 2),
        (None, Some(27), 2)
    ],
    [
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(29), 2),
        (None, Some(29), 2),
        (None, Some(29), 2),
        (None, Some(29), 2)
    ],
    [
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(31), 2),
        (None, Some(31), 2),
        (None, Some(31), 2),
        (None, Some(31), 2)
    ],
    [
        (None, Some(115), 1),
        (None, Some(115), 1),
        (None, Some(116), 1),
        (None, Some(116), 1),
        (None, Some(32), 0),
        (None, Some(37), 0),
        (None, Some(45), 0),
        (None, Some(46), 0)
    ],
    [
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(34), 2),
        (None, Some(34), 2),
        (None, Some(34), 2),
        (None, Some(34), 2)
    ],
    [
        (None, Some(38), 1),
        (None, Some(38), 1),
        (None, Some(42), 1),
        (None, Some(42), 1),
        (None, Some(44), 1),
        (None, Some(44), 1),
        (None, Some(59), 1),
        (None, Some(59), 1)
    ],
    [
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(39), 1),
        (None, Some(39), 1),
        (None, Some(43), 1),
        (None, Some(43), 1)
    ],
    [
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(41), 2),
        (None, Some(41), 2),
        (None, Some(41), 2),
        (None, Some(41), 2)
    ],
    [
        (None, Some(47), 0),
        (None, Some(51), 0),
        (None, Some(52), 0),
        (None, Some(53), 0),
        (None, Some(54), 0),
        (None, Some(55), 0),
        (None, Some(56), 0),
        (None, Some(57), 0)
    ],
    [
        (None, Some(48), 1),
        (None, Some(48), 1),
        (None, Some(49), 1),
        (None, Some(49), 1),
        (None, Some(50), 1),
        (None, Some(50), 1),
        (None, Some(97), 1),
        (None, Some(97), 1)
    ],
    [
        (None, Some(108), 0),
        (None, Some(109), 0),
        (None, Some(110), 0),
        (None, Some(112), 0),
        (None, Some(114), 0),
        (None, Some(117), 0),
        (Some(36), None, 0),
        (Some(39), None, 0)
    ],
    [
        (None, Some(58), 2),
        (None, Some(58), 2),
        (None, Some(58), 2),
        (None, Some(58), 2),
        (None, Some(66), 2),
        (None, Some(66), 2),
        (None, Some(66), 2),
        (None, Some(66), 2)
    ],
    [
        (None, Some(61), 0),
        (None, Some(65), 0),
        (None, Some(95), 0),
        (None, Some(98), 0),
        (None, Some(100), 0),
        (None, Some(102), 0),
        (None, Some(103), 0),
        (None, Some(104), 0)
    ],
    [
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(91), 2),
        (None, Some(91), 2),
        (None, Some(91), 2),
        (None, Some(91), 2)
    ],
    [
        (None, Some(67), 2),
        (None, Some(67), 2),
        (None, Some(67), 2),
        (None, Some(67), 2),
        (None, Some(68), 2),
        (None, Some(68), 2),
        (None, Some(68), 2),
        (None, Some(68), 2)
    ],
    [
        (Some(41), None, 0),
        (Some(42), None, 0),
        (Some(43), None, 0),
        (Some(44), None, 0),
        (Some(45), None, 0),
        (Some(46), None, 0),
        (Some(47), None, 0),
        (Some(48), None, 0)
    ],
    [
        (None, Some(69), 2),
        (None, Some(69), 2),
        (None, Some(69), 2),
        (None, Some(69), 2),
        (None, Some(70), 2),
        (None, Some(70), 2),
        (None, Some(70), 2),
        (None, Some(70), 2)
    ],
    [
        (None, Some(71), 2),
        (None, Some(71), 2),
        (None, Some(71), 2),
        (None, Some(71), 2),
        (None, Some(72), 2),
        (None, Some(72), 2),
        (None, Some(72), 2),
        (None, Some(72), 2)
    ],
    [
        (None, Some(73), 2),
        (None, Some(73), 2),
        (None, Some(73), 2),
        (None, Some(73), 2),
        (None, Some(74), 2),
        (None, Some(74), 2),
        (None, Some(74), 2),
        (None, Some(74), 2)
    ],
    [
        (None, Some(75), 2),
        (None, Some(75), 2),
        (None, Some(75), 2),
        (None, Some(75), 2),
        (None, Some(76), 2),
        (None, Some(76), 2),
        (None, Some(76), 2),
        (None, Some(76), 2)
    ],
    [
        (None, Some(77), 2),
        (None, Some(77), 2),
        (None, Some(77), 2),
        (None, Some(77), 2),
        (None, Some(78), 2),
        (None, Some(78), 2),
        (None, Some(78), 2),
        (None, Some(78), 2)
    ],
    [
        (None, Some(79), 2),
        (None, Some(79), 2),
        (None, Some(79), 2),
        (None, Some(79), 2),
        (None, Some(80), 2),
        (None, Some(80), 2),
        (None, Some(80), 2),
        (None, Some(80), 2)
    ],
    [
        (None, Some(81), 2),
        (None, Some(81), 2),
        (None, Some(81), 2),
        (None, Some(81), 2),
        (None, Some(82), 2),
        (None, Some(82), 2),
        (None, Some(82), 2),
        (None, Some(82), 2)
    ],
    [
        (None, Some(83), 2),
        (None, Some(83), 2),
        (None, Some(83), 2),
        (None, Some(83), 2),
        (None, Some(84), 2),
        (None, Some(84), 2),
        (None, Some(84), 2),
        (None, Some(84), 2)
    ],
    [
        (None, Some(85), 2),
        (None, Some(85), 2),
        (None, Some(85), 2),
        (None, Some(85), 2),
        (None, Some(86), 2),
        (None, Some(86), 2),
        (None, Some(86), 2),
        (None, Some(86), 2)
    ],
    [
        (None, Some(87), 2),
        (None, Some(87), 2),
        (None, Some(87), 2),
        (None, Some(87), 2),
        (None, Some(89), 2),
        (None, Some(89), 2),
        (None, Some(89), 2),
        (None, Some(89), 2)
    ],
    [
        (None, Some(92), 2),
        (None, Some(92), 2),
        (None, Some(92), 2),
        (None, Some(92), 2),
        (None, Some(195), 2),
        (None, Some(195), 2),
        (None, Some(195), 2),
        (None, Some(195), 2)
    ],
    [
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(126), 2),
        (None, Some(126), 2),
        (None, Some(126), 2),
        (None, Some(126), 2)
    ],
    [
        (None, Some(99), 1),
        (None, Some(99), 1),
        (None, Some(101), 1),
        (None, Some(101), 1),
        (None, Some(105), 1),
        (None, Some(105), 1),
        (None, Some(111), 1),
        (None, Some(111), 1)
    ],
    [
        (None, Some(106), 2),
        (None, Some(106), 2),
        (None, Some(106), 2),
        (None, Some(106), 2),
        (None, Some(107), 2),
        (None, Some(107), 2),
        (None, Some(107), 2),
        (None, Some(107), 2)
    ],
    [
        (None, Some(113), 2),
        (None, Some(113), 2),
        (None, Some(113), 2),
        (None, Some(113), 2),
        (None, Some(118), 2),
        (None, Some(118), 2),
        (None, Some(118), 2),
        (None, Some(118), 2)
    ],
    [
        (None, Some(119), 2),
        (None, Some(119), 2),
        (None, Some(119), 2),
        (None, Some(119), 2),
        (None, Some(120), 2),
        (None, Some(120), 2),
        (None, Some(120), 2),
        (None, Some(120), 2)
    ],
    [
        (None, Some(121), 2),
        (None, Some(121), 2),
        (None, Some(121), 2),
        (None, Some(121), 2),
        (None, Some(122), 2),
        (None, Some(122), 2),
        (None, Some(122), 2),
        (None, Some(122), 2)
    ],
    [
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(220), 2),
        (None, Some(220), 2),
        (None, Some(220), 2),
        (None, Some(220), 2)
    ],
    [
        (None, Some(208), 2),
        (None, Some(208), 2),
        (None, Some(208), 2),
        (None, Some(208), 2),
        (None, Some(128), 1),
        (None, Some(128), 1),
        (None, Some(130), 1),
        (None, Some(130), 1)
    ],
    [
        (None, Some(230), 0),
        (Some(61), None, 0),
        (Some(63), None, 0),
        (Some(64), None, 0),
        (Some(69), None, 0),
        (Some(70), None, 0),
        (Some(71), None, 0),
        (Some(73), None, 0)
    ],
    [
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(132), 2),
        (None, Some(132), 2),
        (None, Some(132), 2),
        (None, Some(132), 2)
    ],
    [
        (None, Some(131), 1),
        (None, Some(131), 1),
        (None, Some(162), 1),
        (None, Some(162), 1),
        (None, Some(184), 1),
        (None, Some(184), 1),
        (None, Some(194), 1),
        (None, Some(194), 1)
    ],
    [
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(134), 2),
        (None, Some(134), 2),
        (None, Some(134), 2),
        (None, Some(134), 2)
    ],
    [
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(146), 2),
        (None, Some(146), 2),
        (None, Some(146), 2),
        (None, Some(146), 2)
    ],
    [
        (None, Some(139), 1),
        (None, Some(139), 1),
        (None, Some(140), 1),
        (None, Some(140), 1),
        (None, Some(141), 1),
        (None, Some(141), 1),
        (None, Some(143), 1),
        (None, Some(143), 1)
    ],
    [
        (None, Some(147), 1),
        (None, Some(147), 1),
        (None, Some(149), 1),
        (None, Some(149), 1),
        (None, Some(150), 1),
        (None, Some(150), 1),
        (None, Some(151), 1),
        (None, Some(151), 1)
    ],
    [
        (None, Some(152), 1),
        (None, Some(152), 1),
        (None, Some(155), 1),
        (None, Some(155), 1),
        (None, Some(157), 1),
        (None, Some(157), 1),
        (None, Some(158), 1),
        (None, Some(158), 1)
    ],
    [
        (None, Some(224), 1),
        (None, Some(224), 1),
        (None, Some(226), 1),
        (None, Some(226), 1),
        (None, Some(153), 0),
        (None, Some(161), 0),
        (None, Some(167), 0),
        (None, Some(172), 0)
    ],
    [
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(156), 2),
        (None, Some(156), 2),
        (None, Some(156), 2),
        (None, Some(156), 2)
    ],
    [
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(163), 2),
        (None, Some(163), 2),
        (None, Some(163), 2),
        (None, Some(163), 2)
    ],
    [
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(169), 2),
        (None, Some(169), 2),
        (None, Some(169), 2),
        (None, Some(169), 2)
    ],
    [
        (None, Some(165), 1),
        (None, Some(165), 1),
        (None, Some(166), 1),
        (None, Some(166), 1),
        (None, Some(168), 1),
        (None, Some(168), 1),
        (None, Some(174), 1),
        (None, Some(174), 1)
    ],
    [
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(173), 2),
        (None, Some(173), 2),
        (None, Some(173), 2),
        (None, Some(173), 2)
    ],
    [
        (None, Some(171), 0),
        (None, Some(206), 0),
        (None, Some(215), 0),
        (None, Some(225), 0),
        (None, Some(236), 0),
        (None, Some(237), 0),
        (Some(84), None, 0),
        (Some(90), None, 0)
    ],
    [
        (None, Some(175), 1),
        (None, Some(175), 1),
        (None, Some(180), 1),
        (None, Some(180), 1),
        (None, Some(182), 1),
        (None, Some(182), 1),
        (None, Some(183), 1),
        (None, Some(183), 1)
    ],
    [
        (None, Some(176), 0),
        (None, Some(177), 0),
        (None, Some(179), 0),
        (None, Some(209), 0),
        (None, Some(216), 0),
        (None, Some(217), 0),
        (None, Some(227), 0),
        (None, Some(229), 0)
    ],
    [
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(181), 2),
        (None, Some(181), 2),
        (None, Some(181), 2),
        (None, Some(181), 2)
    ],
    [
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(186), 2),
        (None, Some(186), 2),
        (None, Some(186), 2),
        (None, Some(186), 2)
    ],
    [
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(189), 2),
        (None, Some(189), 2),
        (None, Some(189), 2),
        (None, Some(189), 2)
    ],
    [
        (None, Some(188), 1),
        (None, Some(188), 1),
        (None, Some(191), 1),
        (None, Some(191), 1),
        (None, Some(197), 1),
        (None, Some(197), 1),
        (None, Some(231), 1),
        (None, Some(231), 1)
    ],
    [
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(196), 2),
        (None, Some(196), 2),
        (None, Some(196), 2),
        (None, Some(196), 2)
    ],
    [
        (None, Some(192), 1),
        (None, Some(192), 1),
        (None, Some(193), 1),
        (None, Some(193), 1),
        (None, Some(200), 1),
        (None, Some(200), 1),
        (None, Some(201), 1),
        (None, Some(201), 1)
    ],
    [
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(228), 2),
        (None, Some(228), 2),
        (None, Some(228), 2),
        (None, Some(228), 2)
    ],
    [
        (None, Some(199), 2),
        (None, Some(199), 2),
        (None, Some(199), 2),
        (None, Some(199), 2),
        (None, Some(207), 2),
        (None, Some(207), 2),
        (None, Some(207), 2),
        (None, Some(207), 2)
    ],
    [
        (None, Some(202), 1),
        (None, Some(202), 1),
        (None, Some(205), 1),
        (None, Some(205), 1),
        (None, Some(210), 1),
        (None, Some(210), 1),
        (None, Some(213), 1),
        (None, Some(213), 1)
    ],
    [
        (None, Some(242), 1),
        (None, Some(242), 1),
        (None, Some(243), 1),
        (None, Some(243), 1),
        (None, Some(255), 1),
        (None, Some(255), 1),
        (None, Some(203), 0),
        (None, Some(204), 0)
    ],
    [
        (None, Some(211), 0),
        (None, Some(212), 0),
        (None, Some(214), 0),
        (None, Some(221), 0),
        (None, Some(222), 0),
        (None, Some(223), 0),
        (None, Some(241), 0),
        (None, Some(244), 0)
    ],
    [
        (None, Some(218), 1),
        (None, Some(218), 1),
        (None, Some(219), 1),
        (None, Some(219), 1),
        (None, Some(238), 1),
        (None, Some(238), 1),
        (None, Some(240), 1),
        (None, Some(240), 1)
    ],
    [
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(233), 2),
        (None, Some(233), 2),
        (None, Some(233), 2),
        (None, Some(233), 2)
    ],
    [
        (None, Some(234), 2),
        (None, Some(234), 2),
        (None, Some(234), 2),
        (None, Some(234), 2),
        (None, Some(235), 2),
        (None, Some(235), 2),
        (None, Some(235), 2),
        (None, Some(235), 2)
    ],
    [
        (None, Some(245), 0),
        (None, Some(246), 0),
        (None, Some(247), 0),
        (None, Some(248), 0),
        (None, Some(250), 0),
        (None, Some(251), 0),
        (None, Some(252), 0),
        (None, Some(253), 0)
    ]
];
}
pub mod table4 {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const DECODE_TABLE: [[(Option<u8>, Option<u16>, u8); 16]; 54] = [
    [
        (Some(15), None, 0),
        (Some(16), None, 0),
        (Some(26), None, 0),
        (Some(28), None, 0),
        (Some(30), None, 0),
        (Some(12), None, 0),
        (Some(14), None, 0),
        (Some(17), None, 0),
        (Some(19), None, 0),
        (Some(27), None, 0),
        (Some(29), None, 0),
        (Some(18), None, 0),
        (Some(21), None, 0),
        (Some(22), None, 0),
        (Some(23), None, 0),
        (Some(1), None, 0)
    ],
    [
        (None, Some(119), 1),
        (None, Some(119), 1),
        (None, Some(120), 1),
        (None, Some(120), 1),
        (None, Some(121), 1),
        (None, Some(121), 1),
        (None, Some(122), 1),
        (None, Some(122), 1),
        (None, Some(38), 0),
        (None, Some(42), 0),
        (None, Some(44), 0),
        (None, Some(59), 0),
        (None, Some(88), 0),
        (None, Some(90), 0),
        (Some(13), None, 0),
        (Some(2), None, 0)
    ],
    [
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(63), 2),
        (None, Some(39), 1),
        (None, Some(39), 1),
        (None, Some(43), 1),
        (None, Some(43), 1),
        (None, Some(124), 1),
        (None, Some(124), 1),
        (None, Some(35), 0),
        (None, Some(62), 0),
        (Some(3), None, 0),
        (Some(20), None, 0),
        (Some(25), None, 0),
        (Some(4), None, 0)
    ],
    [
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(0), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3),
        (None, Some(36), 3)
    ],
    [
        (None, Some(94), 2),
        (None, Some(94), 2),
        (None, Some(94), 2),
        (None, Some(94), 2),
        (None, Some(125), 2),
        (None, Some(125), 2),
        (None, Some(125), 2),
        (None, Some(125), 2),
        (None, Some(60), 1),
        (None, Some(60), 1),
        (None, Some(96), 1),
        (None, Some(96), 1),
        (None, Some(123), 1),
        (None, Some(123), 1),
        (Some(24), None, 0),
        (Some(5), None, 0)
    ],
    [
        (Some(39), None, 0),
        (Some(41), None, 0),
        (Some(49), None, 0),
        (Some(51), None, 0),
        (Some(31), None, 0),
        (Some(32), None, 0),
        (Some(35), None, 0),
        (Some(36), None, 0),
        (Some(40), None, 0),
        (Some(42), None, 0),
        (Some(44), None, 0),
        (Some(6), None, 0),
        (Some(33), None, 0),
        (Some(37), None, 0),
        (Some(9), None, 0),
        (Some(7), None, 0)
    ],
    [
        (None, Some(1), 1),
        (None, Some(1), 1),
        (None, Some(135), 1),
        (None, Some(135), 1),
        (None, Some(137), 1),
        (None, Some(137), 1),
        (None, Some(138), 1),
        (None, Some(138), 1),
        (None, Some(139), 1),
        (None, Some(139), 1),
        (None, Some(140), 1),
        (None, Some(140), 1),
        (None, Some(141), 1),
        (None, Some(141), 1),
        (None, Some(143), 1),
        (None, Some(143), 1)
    ],
    [
        (None, Some(171), 0),
        (None, Some(206), 0),
        (None, Some(215), 0),
        (None, Some(225), 0),
        (None, Some(236), 0),
        (None, Some(237), 0),
        (Some(45), None, 0),
        (Some(52), None, 0),
        (Some(43), None, 0),
        (Some(46), None, 0),
        (Some(50), None, 0),
        (Some(47), None, 0),
        (Some(48), None, 0),
        (Some(53), None, 0),
        (Some(8), None, 0),
        (Some(10), None, 0)
    ],
    [
        (None, Some(254), 1),
        (None, Some(254), 1),
        (None, Some(2), 0),
        (None, Some(3), 0),
        (None, Some(4), 0),
        (None, Some(5), 0),
        (None, Some(6), 0),
        (None, Some(7), 0),
        (None, Some(8), 0),
        (None, Some(11), 0),
        (None, Some(12), 0),
        (None, Some(14), 0),
        (None, Some(15), 0),
        (None, Some(16), 0),
        (None, Some(17), 0),
        (None, Some(18), 0)
    ],
    [
        (None, Some(188), 1),
        (None, Some(188), 1),
        (None, Some(191), 1),
        (None, Some(191), 1),
        (None, Some(197), 1),
        (None, Some(197), 1),
        (None, Some(231), 1),
        (None, Some(231), 1),
        (None, Some(239), 1),
        (None, Some(239), 1),
        (None, Some(9), 0),
        (None, Some(142), 0),
        (None, Some(144), 0),
        (None, Some(145), 0),
        (None, Some(148), 0),
        (None, Some(159), 0)
    ],
    [
        (None, Some(19), 0),
        (None, Some(20), 0),
        (None, Some(21), 0),
        (None, Some(23), 0),
        (None, Some(24), 0),
        (None, Some(25), 0),
        (None, Some(26), 0),
        (None, Some(27), 0),
        (None, Some(28), 0),
        (None, Some(29), 0),
        (None, Some(30), 0),
        (None, Some(31), 0),
        (None, Some(127), 0),
        (None, Some(220), 0),
        (None, Some(249), 0),
        (Some(11), None, 0)
    ],
    [
        (None, Some(10), 2),
        (None, Some(10), 2),
        (None, Some(10), 2),
        (None, Some(10), 2),
        (None, Some(13), 2),
        (None, Some(13), 2),
        (None, Some(13), 2),
        (None, Some(13), 2),
        (None, Some(22), 2),
        (None, Some(22), 2),
        (None, Some(22), 2),
        (None, Some(22), 2),
        (None, Some(256), 2),
        (None, Some(256), 2),
        (None, Some(256), 2),
        (None, Some(256), 2)
    ],
    [
        (None, Some(32), 2),
        (None, Some(32), 2),
        (None, Some(32), 2),
        (None, Some(32), 2),
        (None, Some(37), 2),
        (None, Some(37), 2),
        (None, Some(37), 2),
        (None, Some(37), 2),
        (None, Some(45), 2),
        (None, Some(45), 2),
        (None, Some(45), 2),
        (None, Some(45), 2),
        (None, Some(46), 2),
        (None, Some(46), 2),
        (None, Some(46), 2),
        (None, Some(46), 2)
    ],
    [
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(33), 2),
        (None, Some(34), 2),
        (None, Some(34), 2),
        (None, Some(34), 2),
        (None, Some(34), 2),
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(40), 2),
        (None, Some(41), 2),
        (None, Some(41), 2),
        (None, Some(41), 2),
        (None, Some(41), 2)
    ],
    [
        (None, Some(47), 2),
        (None, Some(47), 2),
        (None, Some(47), 2),
        (None, Some(47), 2),
        (None, Some(51), 2),
        (None, Some(51), 2),
        (None, Some(51), 2),
        (None, Some(51), 2),
        (None, Some(52), 2),
        (None, Some(52), 2),
        (None, Some(52), 2),
        (None, Some(52), 2),
        (None, Some(53), 2),
        (None, Some(53), 2),
        (None, Some(53), 2),
        (None, Some(53), 2)
    ],
    [
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(48), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3),
        (None, Some(49), 3)
    ],
    [
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(50), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3),
        (None, Some(97), 3)
    ],
    [
        (None, Some(54), 2),
        (None, Some(54), 2),
        (None, Some(54), 2),
        (None, Some(54), 2),
        (None, Some(55), 2),
        (None, Some(55), 2),
        (None, Some(55), 2),
        (None, Some(55), 2),
        (None, Some(56), 2),
        (None, Some(56), 2),
        (None, Some(56), 2),
        (None, Some(56), 2),
        (None, Some(57), 2),
        (None, Some(57), 2),
        (None, Some(57), 2),
        (None, Some(57), 2)
    ],
    [
        (None, Some(114), 2),
        (None, Some(114), 2),
        (None, Some(114), 2),
        (None, Some(114), 2),
        (None, Some(117), 2),
        (None, Some(117), 2),
        (None, Some(117), 2),
        (None, Some(117), 2),
        (None, Some(58), 1),
        (None, Some(58), 1),
        (None, Some(66), 1),
        (None, Some(66), 1),
        (None, Some(67), 1),
        (None, Some(67), 1),
        (None, Some(68), 1),
        (None, Some(68), 1)
    ],
    [
        (None, Some(61), 2),
        (None, Some(61), 2),
        (None, Some(61), 2),
        (None, Some(61), 2),
        (None, Some(65), 2),
        (None, Some(65), 2),
        (None, Some(65), 2),
        (None, Some(65), 2),
        (None, Some(95), 2),
        (None, Some(95), 2),
        (None, Some(95), 2),
        (None, Some(95), 2),
        (None, Some(98), 2),
        (None, Some(98), 2),
        (None, Some(98), 2),
        (None, Some(98), 2)
    ],
    [
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(64), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3),
        (None, Some(91), 3)
    ],
    [
        (None, Some(69), 1),
        (None, Some(69), 1),
        (None, Some(70), 1),
        (None, Some(70), 1),
        (None, Some(71), 1),
        (None, Some(71), 1),
        (None, Some(72), 1),
        (None, Some(72), 1),
        (None, Some(73), 1),
        (None, Some(73), 1),
        (None, Some(74), 1),
        (None, Some(74), 1),
        (None, Some(75), 1),
        (None, Some(75), 1),
        (None, Some(76), 1),
        (None, Some(76), 1)
    ],
    [
        (None, Some(77), 1),
        (None, Some(77), 1),
        (None, Some(78), 1),
        (None, Some(78), 1),
        (None, Some(79), 1),
        (None, Some(79), 1),
        (None, Some(80), 1),
        (None, Some(80), 1),
        (None, Some(81), 1),
        (None, Some(81), 1),
        (None, Some(82), 1),
        (None, Some(82), 1),
        (None, Some(83), 1),
        (None, Some(83), 1),
        (None, Some(84), 1),
        (None, Some(84), 1)
    ],
    [
        (None, Some(85), 1),
        (None, Some(85), 1),
        (None, Some(86), 1),
        (None, Some(86), 1),
        (None, Some(87), 1),
        (None, Some(87), 1),
        (None, Some(89), 1),
        (None, Some(89), 1),
        (None, Some(106), 1),
        (None, Some(106), 1),
        (None, Some(107), 1),
        (None, Some(107), 1),
        (None, Some(113), 1),
        (None, Some(113), 1),
        (None, Some(118), 1),
        (None, Some(118), 1)
    ],
    [
        (None, Some(92), 1),
        (None, Some(92), 1),
        (None, Some(195), 1),
        (None, Some(195), 1),
        (None, Some(208), 1),
        (None, Some(208), 1),
        (None, Some(128), 0),
        (None, Some(130), 0),
        (None, Some(131), 0),
        (None, Some(162), 0),
        (None, Some(184), 0),
        (None, Some(194), 0),
        (None, Some(224), 0),
        (None, Some(226), 0),
        (Some(34), None, 0),
        (Some(38), None, 0)
    ],
    [
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(93), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3),
        (None, Some(126), 3)
    ],
    [
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(99), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3),
        (None, Some(101), 3)
    ],
    [
        (None, Some(100), 2),
        (None, Some(100), 2),
        (None, Some(100), 2),
        (None, Some(100), 2),
        (None, Some(102), 2),
        (None, Some(102), 2),
        (None, Some(102), 2),
        (None, Some(102), 2),
        (None, Some(103), 2),
        (None, Some(103), 2),
        (None, Some(103), 2),
        (None, Some(103), 2),
        (None, Some(104), 2),
        (None, Some(104), 2),
        (None, Some(104), 2),
        (None, Some(104), 2)
    ],
    [
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(105), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3),
        (None, Some(111), 3)
    ],
    [
        (None, Some(108), 2),
        (None, Some(108), 2),
        (None, Some(108), 2),
        (None, Some(108), 2),
        (None, Some(109), 2),
        (None, Some(109), 2),
        (None, Some(109), 2),
        (None, Some(109), 2),
        (None, Some(110), 2),
        (None, Some(110), 2),
        (None, Some(110), 2),
        (None, Some(110), 2),
        (None, Some(112), 2),
        (None, Some(112), 2),
        (None, Some(112), 2),
        (None, Some(112), 2)
    ],
    [
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(115), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3),
        (None, Some(116), 3)
    ],
    [
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(230), 3),
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(129), 2),
        (None, Some(132), 2),
        (None, Some(132), 2),
        (None, Some(132), 2),
        (None, Some(132), 2)
    ],
    [
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(133), 2),
        (None, Some(134), 2),
        (None, Some(134), 2),
        (None, Some(134), 2),
        (None, Some(134), 2),
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(136), 2),
        (None, Some(146), 2),
        (None, Some(146), 2),
        (None, Some(146), 2),
        (None, Some(146), 2)
    ],
    [
        (None, Some(147), 1),
        (None, Some(147), 1),
        (None, Some(149), 1),
        (None, Some(149), 1),
        (None, Some(150), 1),
        (None, Some(150), 1),
        (None, Some(151), 1),
        (None, Some(151), 1),
        (None, Some(152), 1),
        (None, Some(152), 1),
        (None, Some(155), 1),
        (None, Some(155), 1),
        (None, Some(157), 1),
        (None, Some(157), 1),
        (None, Some(158), 1),
        (None, Some(158), 1)
    ],
    [
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(153), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3),
        (None, Some(161), 3)
    ],
    [
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(154), 2),
        (None, Some(156), 2),
        (None, Some(156), 2),
        (None, Some(156), 2),
        (None, Some(156), 2),
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(160), 2),
        (None, Some(163), 2),
        (None, Some(163), 2),
        (None, Some(163), 2),
        (None, Some(163), 2)
    ],
    [
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(164), 2),
        (None, Some(169), 2),
        (None, Some(169), 2),
        (None, Some(169), 2),
        (None, Some(169), 2),
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(170), 2),
        (None, Some(173), 2),
        (None, Some(173), 2),
        (None, Some(173), 2),
        (None, Some(173), 2)
    ],
    [
        (None, Some(165), 1),
        (None, Some(165), 1),
        (None, Some(166), 1),
        (None, Some(166), 1),
        (None, Some(168), 1),
        (None, Some(168), 1),
        (None, Some(174), 1),
        (None, Some(174), 1),
        (None, Some(175), 1),
        (None, Some(175), 1),
        (None, Some(180), 1),
        (None, Some(180), 1),
        (None, Some(182), 1),
        (None, Some(182), 1),
        (None, Some(183), 1),
        (None, Some(183), 1)
    ],
    [
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(167), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3),
        (None, Some(172), 3)
    ],
    [
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(176), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3),
        (None, Some(177), 3)
    ],
    [
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(178), 2),
        (None, Some(181), 2),
        (None, Some(181), 2),
        (None, Some(181), 2),
        (None, Some(181), 2),
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(185), 2),
        (None, Some(186), 2),
        (None, Some(186), 2),
        (None, Some(186), 2),
        (None, Some(186), 2)
    ],
    [
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(179), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3),
        (None, Some(209), 3)
    ],
    [
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(187), 2),
        (None, Some(189), 2),
        (None, Some(189), 2),
        (None, Some(189), 2),
        (None, Some(189), 2),
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(190), 2),
        (None, Some(196), 2),
        (None, Some(196), 2),
        (None, Some(196), 2),
        (None, Some(196), 2)
    ],
    [
        (None, Some(192), 2),
        (None, Some(192), 2),
        (None, Some(192), 2),
        (None, Some(192), 2),
        (None, Some(193), 2),
        (None, Some(193), 2),
        (None, Some(193), 2),
        (None, Some(193), 2),
        (None, Some(200), 2),
        (None, Some(200), 2),
        (None, Some(200), 2),
        (None, Some(200), 2),
        (None, Some(201), 2),
        (None, Some(201), 2),
        (None, Some(201), 2),
        (None, Some(201), 2)
    ],
    [
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(198), 2),
        (None, Some(228), 2),
        (None, Some(228), 2),
        (None, Some(228), 2),
        (None, Some(228), 2),
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(232), 2),
        (None, Some(233), 2),
        (None, Some(233), 2),
        (None, Some(233), 2),
        (None, Some(233), 2)
    ],
    [
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(199), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3),
        (None, Some(207), 3)
    ],
    [
        (None, Some(202), 2),
        (None, Some(202), 2),
        (None, Some(202), 2),
        (None, Some(202), 2),
        (None, Some(205), 2),
        (None, Some(205), 2),
        (None, Some(205), 2),
        (None, Some(205), 2),
        (None, Some(210), 2),
        (None, Some(210), 2),
        (None, Some(210), 2),
        (None, Some(210), 2),
        (None, Some(213), 2),
        (None, Some(213), 2),
        (None, Some(213), 2),
        (None, Some(213), 2)
    ],
    [
        (None, Some(242), 2),
        (None, Some(242), 2),
        (None, Some(242), 2),
        (None, Some(242), 2),
        (None, Some(243), 2),
        (None, Some(243), 2),
        (None, Some(243), 2),
        (None, Some(243), 2),
        (None, Some(255), 2),
        (None, Some(255), 2),
        (None, Some(255), 2),
        (None, Some(255), 2),
        (None, Some(203), 1),
        (None, Some(203), 1),
        (None, Some(204), 1),
        (None, Some(204), 1)
    ],
    [
        (None, Some(211), 1),
        (None, Some(211), 1),
        (None, Some(212), 1),
        (None, Some(212), 1),
        (None, Some(214), 1),
        (None, Some(214), 1),
        (None, Some(221), 1),
        (None, Some(221), 1),
        (None, Some(222), 1),
        (None, Some(222), 1),
        (None, Some(223), 1),
        (None, Some(223), 1),
        (None, Some(241), 1),
        (None, Some(241), 1),
        (None, Some(244), 1),
        (None, Some(244), 1)
    ],
    [
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(216), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3),
        (None, Some(217), 3)
    ],
    [
        (None, Some(218), 2),
        (None, Some(218), 2),
        (None, Some(218), 2),
        (None, Some(218), 2),
        (None, Some(219), 2),
        (None, Some(219), 2),
        (None, Some(219), 2),
        (None, Some(219), 2),
        (None, Some(238), 2),
        (None, Some(238), 2),
        (None, Some(238), 2),
        (None, Some(238), 2),
        (None, Some(240), 2),
        (None, Some(240), 2),
        (None, Some(240), 2),
        (None, Some(240), 2)
    ],
    [
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(227), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3),
        (None, Some(229), 3)
    ],
    [
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(234), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3),
        (None, Some(235), 3)
    ],
    [
        (None, Some(245), 1),
        (None, Some(245), 1),
        (None, Some(246), 1),
        (None, Some(246), 1),
        (None, Some(247), 1),
        (None, Some(247), 1),
        (None, Some(248), 1),
        (None, Some(248), 1),
        (None, Some(250), 1),
        (None, Some(250), 1),
        (None, Some(251), 1),
        (None, Some(251), 1),
        (None, Some(252), 1),
        (None, Some(252), 1),
        (None, Some(253), 1),
        (None, Some(253), 1)
    ]
];
}
pub mod table5 {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const DECODE_TABLE: [[(Option<u8>, Option<u16>, u8); 32]; 61] = [
    [
        (None, Some(48), 0),
        (None, Some(49), 0),
        (None, Some(50), 0),
        (None, Some(97), 0),
        (None, Some(99), 0),
        (None, Some(101), 0),
        (None, Some(105), 0),
        (None, Some(111), 0),
        (None, Some(115), 0),
        (None, Some(116), 0),
        (Some(11), None, 0),
        (Some(14), None, 0),
        (Some(15), None, 0),
        (Some(16), None, 0),
        (Some(17), None, 0),
        (Some(18), None, 0),
        (Some(20), None, 0),
        (Some(26), None, 0),
        (Some(27), None, 0),
        (Some(28), None, 0),
        (Some(30), None, 0),
        (Some(31), None, 0),
        (Some(32), None, 0),
        (Some(19), None, 0),
        (Some(21), None, 0),
        (Some(22), None, 0),
        (Some(23), None, 0),
        (Some(24), None, 0),
        (Some(25), None, 0),
        (Some(29), None, 0),
        (Some(33), None, 0),
        (Some(1), None, 0)
    ],
    [
        (None, Some(38), 2),
        (None, Some(38), 2),
        (None, Some(38), 2),
        (None, Some(38), 2),
        (None, Some(42), 2),
        (None, Some(42), 2),
        (None, Some(42), 2),
        (None, Some(42), 2),
        (None, Some(44), 2),
        (None, Some(44), 2),
        (None, Some(44), 2),
        (None, Some(44), 2),
        (None, Some(59), 2),
        (None, Some(59), 2),
        (None, Some(59), 2),
        (None, Some(59), 2),
        (None, Some(88), 2),
        (None, Some(88), 2),
        (None, Some(88), 2),
        (None, Some(88), 2),
        (None, Some(90), 2),
        (None, Some(90), 2),
        (None, Some(90), 2),
        (None, Some(90), 2),
        (None, Some(33), 0),
        (None, Some(34), 0),
        (None, Some(40), 0),
        (None, Some(41), 0),
        (None, Some(63), 0),
        (Some(13), None, 0),
        (Some(12), None, 0),
        (Some(2), None, 0)
    ],
    [
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(0), 2),
        (None, Some(36), 2),
        (None, Some(36), 2),
        (None, Some(36), 2),
        (None, Some(36), 2),
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(64), 2),
        (None, Some(91), 2),
        (None, Some(91), 2),
        (None, Some(91), 2),
        (None, Some(91), 2),
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(93), 2),
        (None, Some(126), 2),
        (None, Some(126), 2),
        (None, Some(126), 2),
        (None, Some(126), 2),
        (None, Some(94), 1),
        (None, Some(94), 1),
        (None, Some(125), 1),
        (None, Some(125), 1),
        (None, Some(60), 0),
        (None, Some(96), 0),
        (None, Some(123), 0),
        (Some(3), None, 0)
    ],
    [
        (None, Some(92), 1),
        (None, Some(92), 1),
        (None, Some(195), 1),
        (None, Some(195), 1),
        (None, Some(208), 1),
        (None, Some(208), 1),
        (None, Some(128), 0),
        (None, Some(130), 0),
        (None, Some(131), 0),
        (None, Some(162), 0),
        (None, Some(184), 0),
        (None, Some(194), 0),
        (None, Some(224), 0),
        (None, Some(226), 0),
        (Some(37), None, 0),
        (Some(41), None, 0),
        (Some(42), None, 0),
        (Some(44), None, 0),
        (Some(53), None, 0),
        (Some(56), None, 0),
        (Some(34), None, 0),
        (Some(35), None, 0),
        (Some(38), None, 0),
        (Some(39), None, 0),
        (Some(43), None, 0),
        (Some(45), None, 0),
        (Some(47), None, 0),
        (Some(4), None, 0),
        (Some(36), None, 0),
        (Some(40), None, 0),
        (Some(8), None, 0),
        (Some(5), None, 0)
    ],
    [
        (None, Some(1), 2),
        (None, Some(1), 2),
        (None, Some(1), 2),
        (None, Some(1), 2),
        (None, Some(135), 2),
        (None, Some(135), 2),
        (None, Some(135), 2),
        (None, Some(135), 2),
        (None, Some(137), 2),
        (None, Some(137), 2),
        (None, Some(137), 2),
        (None, Some(137), 2),
        (None, Some(138), 2),
        (None, Some(138), 2),
        (None, Some(138), 2),
        (None, Some(138), 2),
        (None, Some(139), 2),
        (None, Some(139), 2),
        (None, Some(139), 2),
        (None, Some(139), 2),
        (None, Some(140), 2),
        (None, Some(140), 2),
        (None, Some(140), 2),
        (None, Some(140), 2),
        (None, Some(141), 2),
        (None, Some(141), 2),
        (None, Some(141), 2),
        (None, Some(141), 2),
        (None, Some(143), 2),
        (None, Some(143), 2),
        (None, Some(143), 2),
        (None, Some(143), 2)
    ],
    [
        (None, Some(171), 1),
        (None, Some(171), 1),
        (None, Some(206), 1),
        (None, Some(206), 1),
        (None, Some(215), 1),
        (None, Some(215), 1),
        (None, Some(225), 1),
        (None, Some(225), 1),
        (None, Some(236), 1),
        (None, Some(236), 1),
        (None, Some(237), 1),
        (None, Some(237), 1),
        (None, Some(199), 0),
        (None, Some(207), 0),
        (None, Some(234), 0),
        (None, Some(235), 0),
        (Some(46), None, 0),
        (Some(48), None, 0),
        (Some(49), None, 0),
        (Some(51), None, 0),
        (Some(54), None, 0),
        (Some(57), None, 0),
        (Some(58), None, 0),
        (Some(50), None, 0),
        (Some(52), None, 0),
        (Some(55), None, 0),
        (Some(59), None, 0),
        (Some(60), None, 0),
        (Some(6), None, 0),
        (Some(7), None, 0),
        (Some(10), None, 0),
        (Some(9), None, 0)
    ],
    [
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(254), 3),
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(2), 2),
        (None, Some(3), 2),
        (None, Some(3), 2),
        (None, Some(3), 2),
        (None, Some(3), 2),
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(4), 2),
        (None, Some(5), 2),
        (None, Some(5), 2),
        (None, Some(5), 2),
        (None, Some(5), 2),
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(6), 2),
        (None, Some(7), 2),
        (None, Some(7), 2),
        (None, Some(7), 2),
        (None, Some(7), 2)
    ],
    [
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(8), 2),
        (None, Some(11), 2),
        (None, Some(11), 2),
        (None, Some(11), 2),
        (None, Some(11), 2),
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(12), 2),
        (None, Some(14), 2),
        (None, Some(14), 2),
        (None, Some(14), 2),
        (None, Some(14), 2),
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(15), 2),
        (None, Some(16), 2),
        (None, Some(16), 2),
        (None, Some(16), 2),
        (None, Some(16), 2),
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(17), 2),
        (None, Some(18), 2),
        (None, Some(18), 2),
        (None, Some(18), 2),
        (None, Some(18), 2)
    ],
    [
        (None, Some(188), 2),
        (None, Some(188), 2),
        (None, Some(188), 2),
        (None, Some(188), 2),
        (None, Some(191), 2),
        (None, Some(191), 2),
        (None, Some(191), 2),
        (None, Some(191), 2),
        (None, Some(197), 2),
        (None, Some(197), 2),
        (None, Some(197), 2),
        (None, Some(197), 2),
        (None, Some(231), 2),
        (None, Some(231), 2),
        (None, Some(231), 2),
        (None, Some(231), 2),
        (None, Some(239), 2),
        (None, Some(239), 2),
        (None, Some(239), 2),
        (None, Some(239), 2),
        (None, Some(9), 1),
        (None, Some(9), 1),
        (None, Some(142), 1),
        (None, Some(142), 1),
        (None, Some(144), 1),
        (None, Some(144), 1),
        (None, Some(145), 1),
        (None, Some(145), 1),
        (None, Some(148), 1),
        (None, Some(148), 1),
        (None, Some(159), 1),
        (None, Some(159), 1)
    ],
    [
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(28), 2),
        (None, Some(29), 2),
        (None, Some(29), 2),
        (None, Some(29), 2),
        (None, Some(29), 2),
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(30), 2),
        (None, Some(31), 2),
        (None, Some(31), 2),
        (None, Some(31), 2),
        (None, Some(31), 2),
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(127), 2),
        (None, Some(220), 2),
        (None, Some(220), 2),
        (None, Some(220), 2),
        (None, Some(220), 2),
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(249), 2),
        (None, Some(10), 0),
        (None, Some(13), 0),
        (None, Some(22), 0),
        (None, Some(256), 0)
    ],
    [
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(19), 2),
        (None, Some(20), 2),
        (None, Some(20), 2),
        (None, Some(20), 2),
        (None, Some(20), 2),
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(21), 2),
        (None, Some(23), 2),
        (None, Some(23), 2),
        (None, Some(23), 2),
        (None, Some(23), 2),
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(24), 2),
        (None, Some(25), 2),
        (None, Some(25), 2),
        (None, Some(25), 2),
        (None, Some(25), 2),
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(26), 2),
        (None, Some(27), 2),
        (None, Some(27), 2),
        (None, Some(27), 2),
        (None, Some(27), 2)
    ],
    [
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(32), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4),
        (None, Some(37), 4)
    ],
    [
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(124), 4),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(35), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3),
        (None, Some(62), 3)
    ],
    [
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(39), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4),
        (None, Some(43), 4)
    ],
    [
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(45), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4),
        (None, Some(46), 4)
    ],
    [
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(47), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4),
        (None, Some(51), 4)
    ],
    [
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(52), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4),
        (None, Some(53), 4)
    ],
    [
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(54), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4),
        (None, Some(55), 4)
    ],
    [
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(56), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4),
        (None, Some(57), 4)
    ],
    [
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(58), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(66), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(67), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3),
        (None, Some(68), 3)
    ],
    [
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(61), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4),
        (None, Some(65), 4)
    ],
    [
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(69), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(70), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(71), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3),
        (None, Some(72), 3)
    ],
    [
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(73), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(74), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(75), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3),
        (None, Some(76), 3)
    ],
    [
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(77), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(78), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(79), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3),
        (None, Some(80), 3)
    ],
    [
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(81), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(82), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(83), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3),
        (None, Some(84), 3)
    ],
    [
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(85), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(86), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(87), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3),
        (None, Some(89), 3)
    ],
    [
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(95), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4),
        (None, Some(98), 4)
    ],
    [
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(100), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4),
        (None, Some(102), 4)
    ],
    [
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(103), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4),
        (None, Some(104), 4)
    ],
    [
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(106), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(107), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(113), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3),
        (None, Some(118), 3)
    ],
    [
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(108), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4),
        (None, Some(109), 4)
    ],
    [
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(110), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4),
        (None, Some(112), 4)
    ],
    [
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(114), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4),
        (None, Some(117), 4)
    ],
    [
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(119), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(120), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(121), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3),
        (None, Some(122), 3)
    ],
    [
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(230), 4),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(129), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3),
        (None, Some(132), 3)
    ],
    [
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(133), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(134), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(136), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3),
        (None, Some(146), 3)
    ],
    [
        (None, Some(147), 2),
        (None, Some(147), 2),
        (None, Some(147), 2),
        (None, Some(147), 2),
        (None, Some(149), 2),
        (None, Some(149), 2),
        (None, Some(149), 2),
        (None, Some(149), 2),
        (None, Some(150), 2),
        (None, Some(150), 2),
        (None, Some(150), 2),
        (None, Some(150), 2),
        (None, Some(151), 2),
        (None, Some(151), 2),
        (None, Some(151), 2),
        (None, Some(151), 2),
        (None, Some(152), 2),
        (None, Some(152), 2),
        (None, Some(152), 2),
        (None, Some(152), 2),
        (None, Some(155), 2),
        (None, Some(155), 2),
        (None, Some(155), 2),
        (None, Some(155), 2),
        (None, Some(157), 2),
        (None, Some(157), 2),
        (None, Some(157), 2),
        (None, Some(157), 2),
        (None, Some(158), 2),
        (None, Some(158), 2),
        (None, Some(158), 2),
        (None, Some(158), 2)
    ],
    [
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(153), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4),
        (None, Some(161), 4)
    ],
    [
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(154), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(156), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(160), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3),
        (None, Some(163), 3)
    ],
    [
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(164), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(169), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(170), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3),
        (None, Some(173), 3)
    ],
    [
        (None, Some(165), 2),
        (None, Some(165), 2),
        (None, Some(165), 2),
        (None, Some(165), 2),
        (None, Some(166), 2),
        (None, Some(166), 2),
        (None, Some(166), 2),
        (None, Some(166), 2),
        (None, Some(168), 2),
        (None, Some(168), 2),
        (None, Some(168), 2),
        (None, Some(168), 2),
        (None, Some(174), 2),
        (None, Some(174), 2),
        (None, Some(174), 2),
        (None, Some(174), 2),
        (None, Some(175), 2),
        (None, Some(175), 2),
        (None, Some(175), 2),
        (None, Some(175), 2),
        (None, Some(180), 2),
        (None, Some(180), 2),
        (None, Some(180), 2),
        (None, Some(180), 2),
        (None, Some(182), 2),
        (None, Some(182), 2),
        (None, Some(182), 2),
        (None, Some(182), 2),
        (None, Some(183), 2),
        (None, Some(183), 2),
        (None, Some(183), 2),
        (None, Some(183), 2)
    ],
    [
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(167), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4),
        (None, Some(172), 4)
    ],
    [
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(176), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4),
        (None, Some(177), 4)
    ],
    [
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(178), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(181), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(185), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3),
        (None, Some(186), 3)
    ],
    [
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(179), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4),
        (None, Some(209), 4)
    ],
    [
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(187), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(189), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(190), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3),
        (None, Some(196), 3)
    ],
    [
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(192), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4),
        (None, Some(193), 4)
    ],
    [
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(198), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(228), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(232), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3),
        (None, Some(233), 3)
    ],
    [
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(200), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4),
        (None, Some(201), 4)
    ],
    [
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(202), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4),
        (None, Some(205), 4)
    ],
    [
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(255), 4),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(203), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3),
        (None, Some(204), 3)
    ],
    [
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(210), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4),
        (None, Some(213), 4)
    ],
    [
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(211), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(212), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(214), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3),
        (None, Some(221), 3)
    ],
    [
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(216), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4),
        (None, Some(217), 4)
    ],
    [
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(218), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4),
        (None, Some(219), 4)
    ],
    [
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(222), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(223), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(241), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3),
        (None, Some(244), 3)
    ],
    [
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(227), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4),
        (None, Some(229), 4)
    ],
    [
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(238), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4),
        (None, Some(240), 4)
    ],
    [
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(242), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4),
        (None, Some(243), 4)
    ],
    [
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(245), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(246), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(247), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3),
        (None, Some(248), 3)
    ],
    [
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(250), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(251), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(252), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3),
        (None, Some(253), 3)
    ]
];
}
pub use error::*;
pub use speed::*;
use reader::*;
/*#F decoder::decode#*/
pub fn decode(
    src: &[u8],
    dst: &mut Vec<u8>,
    speed: DecoderSpeed,
) -> (ret: Result<(), DecoderError>) 
 ensures dec_post(src@, old(dst)@, final(dst)@, ret is Ok) 
{
    
 proof { lemma_gave_none(dst@, Seq::<bool>::empty()); assert(src@.take(0) =~= Seq::<u8>::empty()); assert(bits_of(src@.take(0)) =~= Seq::<bool>::empty()); } 
let mut reader = DecodeReader::new(speed as usize);
    for byte in 
 it_: 
src 
 invariant reader.ready(), it_.seq() == src@.as_ref(), gave(old(dst)@, dst@, bits_of(src@.take(it_.index@)), reader.rest()) 
{
        
 let ghost (d1, r1, i) = (dst@, reader.rest(), it_.index@);
        let ghost x = src@[i as int] as int;
        proof {
            lemma_prefix_trans(old(dst)@, d1);
            let b = r1 + bits(8, x);
            lemma_src_step(src@, i);
            assert(bits_of(src@.take(i + 1)) =~= enc_bits(d1.skip(old(dst)@.len() as int)) + b);
            assert(gave_prefix(src@, i, b));
            if dead(b) { lemma_refuse(src@, i, b); }
        } 
reader.decode(*byte, dst)?;
    
 proof { lemma_gave_cat(old(dst)@, d1, dst@, bits_of(src@.take(i)), r1, bits(8, x), reader.rest()); } 
}
    
 proof { assert(src@.take(src@.len() as int) =~= src@); lemma_prefix_trans(old(dst)@, dst@); lemma_finish(src@, old(dst)@, dst@, reader.rest()); } 
reader.finalize(dst)?;
    Ok(())
}
/*#E#*/
}
pub mod encoder {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
 broadcast use {axiom_sub_assign_obeys, axiom_sub_assign_ref}; 
pub mod error {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
use std::error;
use std::fmt;
#[derive(PartialEq)]
pub enum EncoderError {
    InvalidInput,
}
}
pub mod table {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[verifier::opaque]
pub const ENCODE_TABLE: [(u8, u32); 257] = [
  (13, 0x1ff8),
  (23, 0x7fffd8),
  (28, 0xfffffe2),
  (28, 0xfffffe3),
  (28, 0xfffffe4),
  (28, 0xfffffe5),
  (28, 0xfffffe6),
  (28, 0xfffffe7),
  (28, 0xfffffe8),
  (24, 0xffffea),
  (30, 0x3ffffffc),
  (28, 0xfffffe9),
  (28, 0xfffffea),
  (30, 0x3ffffffd),
  (28, 0xfffffeb),
  (28, 0xfffffec),
  (28, 0xfffffed),
  (28, 0xfffffee),
  (28, 0xfffffef),
  (28, 0xffffff0),
  (28, 0xffffff1),
  (28, 0xffffff2),
  (30, 0x3ffffffe),
  (28, 0xffffff3),
  (28, 0xffffff4),
  (28, 0xffffff5),
  (28, 0xffffff6),
  (28, 0xffffff7),
  (28, 0xffffff8),
  (28, 0xffffff9),
  (28, 0xffffffa),
  (28, 0xffffffb),
  (6, 0x14),
  (10, 0x3f8),
  (10, 0x3f9),
  (12, 0xffa),
  (13, 0x1ff9),
  (6, 0x15),
  (8, 0xf8),
  (11, 0x7fa),
  (10, 0x3fa),
  (10, 0x3fb),
  (8, 0xf9),
  (11, 0x7fb),
  (8, 0xfa),
  (6, 0x16),
  (6, 0x17),
  (6, 0x18),
  (5, 0x00),
  (5, 0x01),
  (5, 0x02),
  (6, 0x19),
  (6, 0x1a),
  (6, 0x1b),
  (6, 0x1c),
  (6, 0x1d),
  (6, 0x1e),
  (6, 0x1f),
  (7, 0x5c),
  (8, 0xfb),
  (15, 0x7ffc),
  (6, 0x20),
  (12, 0xffb),
  (10, 0x3fc),
  (13, 0x1ffa),
  (6, 0x21),
  (7, 0x5d),
  (7, 0x5e),
  (7, 0x5f),
  (7, 0x60),
  (7, 0x61),
  (7, 0x62),
  (7, 0x63),
  (7, 0x64),
  (7, 0x65),
  (7, 0x66),
  (7, 0x67),
  (7, 0x68),
  (7, 0x69),
  (7, 0x6a),
  (7, 0x6b),
  (7, 0x6c),
  (7, 0x6d),
  (7, 0x6e),
  (7, 0x6f),
  (7, 0x70),
  (7, 0x71),
  (7, 0x72),
  (8, 0xfc),
  (7, 0x73),
  (8, 0xfd),
  (13, 0x1ffb),
  (19, 0x7fff0),
  (13, 0x1ffc),
  (14, 0x3ffc),
  (6, 0x22),
  (15, 0x7ffd),
  (5, 0x03),
  (6, 0x23),
  (5, 0x04),
  (6, 0x24),
  (5, 0x05),
  (6, 0x25),
  (6, 0x26),
  (6, 0x27),
  (5, 0x06),
  (7, 0x74),
  (7, 0x75),
  (6, 0x28),
  (6, 0x29),
  (6, 0x2a),
  (5, 0x07),
  (6, 0x2b),
  (7, 0x76),
  (6, 0x2c),
  (5, 0x08),
  (5, 0x09),
  (6, 0x2d),
  (7, 0x77),
  (7, 0x78),
  (7, 0x79),
  (7, 0x7a),
  (7, 0x7b),
  (15, 0x7ffe),
  (11, 0x7fc),
  (14, 0x3ffd),
  (13, 0x1ffd),
  (28, 0xffffffc),
  (20, 0xfffe6),
  (22, 0x3fffd2),
  (20, 0xfffe7),
  (20, 0xfffe8),
  (22, 0x3fffd3),
  (22, 0x3fffd4),
  (22, 0x3fffd5),
  (23, 0x7fffd9),
  (22, 0x3fffd6),
  (23, 0x7fffda),
  (23, 0x7fffdb),
  (23, 0x7fffdc),
  (23, 0x7fffdd),
  (23, 0x7fffde),
  (24, 0xffffeb),
  (23, 0x7fffdf),
  (24, 0xffffec),
  (24, 0xffffed),
  (22, 0x3fffd7),
  (23, 0x7fffe0),
  (24, 0xffffee),
  (23, 0x7fffe1),
  (23, 0x7fffe2),
  (23, 0x7fffe3),
  (23, 0x7fffe4),
  (21, 0x1fffdc),
  (22, 0x3fffd8),
  (23, 0x7fffe5),
  (22, 0x3fffd9),
  (23, 0x7fffe6),
  (23, 0x7fffe7),
  (24, 0xffffef),
  (22, 0x3fffda),
  (21, 0x1fffdd),
  (20, 0xfffe9),
  (22, 0x3fffdb),
  (22, 0x3fffdc),
  (23, 0x7fffe8),
  (23, 0x7fffe9),
  (21, 0x1fffde),
  (23, 0x7fffea),
  (22, 0x3fffdd),
  (22, 0x3fffde),
  (24, 0xfffff0),
  (21, 0x1fffdf),
  (22, 0x3fffdf),
  (23, 0x7fffeb),
  (23, 0x7fffec),
  (21, 0x1fffe0),
  (21, 0x1fffe1),
  (22, 0x3fffe0),
  (21, 0x1fffe2),
  (23, 0x7fffed),
  (22, 0x3fffe1),
  (23, 0x7fffee),
  (23, 0x7fffef),
  (20, 0xfffea),
  (22, 0x3fffe2),
  (22, 0x3fffe3),
  (22, 0x3fffe4),
  (23, 0x7ffff0),
  (22, 0x3fffe5),
  (22, 0x3fffe6),
  (23, 0x7ffff1),
  (26, 0x3ffffe0),
  (26, 0x3ffffe1),
  (20, 0xfffeb),
  (19, 0x7fff1),
  (22, 0x3fffe7),
  (23, 0x7ffff2),
  (22, 0x3fffe8),
  (25, 0x1ffffec),
  (26, 0x3ffffe2),
  (26, 0x3ffffe3),
  (26, 0x3ffffe4),
  (27, 0x7ffffde),
  (27, 0x7ffffdf),
  (26, 0x3ffffe5),
  (24, 0xfffff1),
  (25, 0x1ffffed),
  (19, 0x7fff2),
  (21, 0x1fffe3),
  (26, 0x3ffffe6),
  (27, 0x7ffffe0),
  (27, 0x7ffffe1),
  (26, 0x3ffffe7),
  (27, 0x7ffffe2),
  (24, 0xfffff2),
  (21, 0x1fffe4),
  (21, 0x1fffe5),
  (26, 0x3ffffe8),
  (26, 0x3ffffe9),
  (28, 0xffffffd),
  (27, 0x7ffffe3),
  (27, 0x7ffffe4),
  (27, 0x7ffffe5),
  (20, 0xfffec),
  (24, 0xfffff3),
  (20, 0xfffed),
  (21, 0x1fffe6),
  (22, 0x3fffe9),
  (21, 0x1fffe7),
  (21, 0x1fffe8),
  (23, 0x7ffff3),
  (22, 0x3fffea),
  (22, 0x3fffeb),
  (25, 0x1ffffee),
  (25, 0x1ffffef),
  (24, 0xfffff4),
  (24, 0xfffff5),
  (26, 0x3ffffea),
  (23, 0x7ffff4),
  (26, 0x3ffffeb),
  (27, 0x7ffffe6),
  (26, 0x3ffffec),
  (26, 0x3ffffed),
  (27, 0x7ffffe7),
  (27, 0x7ffffe8),
  (27, 0x7ffffe9),
  (27, 0x7ffffea),
  (27, 0x7ffffeb),
  (28, 0xffffffe),
  (27, 0x7ffffec),
  (27, 0x7ffffed),
  (27, 0x7ffffee),
  (27, 0x7ffffef),
  (27, 0x7fffff0),
  (26, 0x3ffffee),
  (30, 0x3fffffff)
];
}
pub use error::*;
/*#F encoder::encode#*/
pub fn encode(src: &[u8], dst: &mut Vec<u8>) -> (ret: Result<(), EncoderError>) 
 ensures ret is Ok, wrote_huff(src@, old(dst)@, final(dst)@) 
{
    
 proof { lemma_start(0, old(dst)@); } 
let mut bits: u64 = 0;
    let mut bits_left = 40;
    let codings = self::table::ENCODE_TABLE;
    for byte_ in 
 it_: 
src 
 invariant codings == crate::httlib_huffman::encoder::table::ENCODE_TABLE, 33 <= bits_left <= 40, it_.seq() == src@.as_ref(),
            writing(src@.take(it_.index@), old(dst)@, dst@, bits, bits_left as int) 
{ let byte = *byte_;
        
 proof {
            let c = src@[it_.index@ as int];
            thm_enc_table(c as int); lemma_code(c as int); assert(src@.take(it_.index@ + 1) =~= src@.take(it_.index@).push(c));
            let (cl, cv) = codings@[c as int];
            lemma_add(src@.take(it_.index@), old(dst)@, dst@, bits, bits_left, c, cl, cv, bits | ((cv as u64) << ((bits_left - cl) as u8)));
        } 
let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };
        bits |= (*code as u64) << (bits_left - code_len);
        bits_left -= code_len;
        while bits_left <= 32 
 invariant bits_left <= 40, writing(src@.take(it_.index@ + 1), old(dst)@, dst@, bits, bits_left as int)
            decreases 40 - bits_left 
{
            
 proof { if bits_left <= 32 { lemma_drain(src@.take(it_.index@ + 1), old(dst)@, dst@, bits, bits_left, (bits >> 32) as u8, bits << 8); } } 
dst.push((bits >> 32) as u8);
            bits <<= 8;
            bits_left += 8;
        }
    }
    
 proof { assert(src@.take(src@.len() as int) =~= src@);
        lemma_holds(bits, bits_left as u64);
        assert(1u64 << bits_left == 1u64 << (bits_left as u64)) by(bit_vector);
        if bits_left == 40 { lemma_full(src@, old(dst)@, dst@, bits); }
        else { let nb = bits | sub(1u64 << bits_left, 1); lemma_fill(src@, old(dst)@, dst@, bits, bits_left, nb, (nb >> 32) as u8); } } 
if bits_left != 40 {
        bits |= (1 << bits_left) - 1;
        dst.push((bits >> 32) as u8);
    }
    Ok(())
}
/*#E#*/
}
pub use decoder::*;
pub use encoder::*;

}

} // verus!

verus! {
pub mod httlib_hpack {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
pub mod decoder {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};

impl<'a> Decoder<'a> {
    pub closed spec fn tv(&self) -> TV { self.table.tv() }
    pub closed spec fn wf(&self) -> bool { self.table.wf() }
    pub closed spec fn limit(&self) -> int { self.max_dynamic_size as int }
}
broadcast use {axiom_vec_short, crate::httlib_hpack::table::lemma_table_wf, lemma_fields_push, lemma_fields_cat, lemma_fields_empty, lemma_running_end, lemma_run_none, group_bits};

pub mod error {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
 impl vstd::std_specs::convert::FromSpecImpl<HuffmanError> for DecoderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: HuffmanError) -> Self { DecoderError::InvalidInput } } 
use std::fmt;
use std::error;
use crate::httlib_huffman::{DecoderError as HuffmanError};
#[derive(PartialEq)]
pub enum DecoderError {
    InvalidInput,
    InvalidIndex,
    InvalidPrefix,
    IntegerOverflow,
    IntegerUnderflow,
    InvalidMaxDynamicSize,
}
impl From<HuffmanError> for DecoderError {
/*#F decoder::error::From<HuffmanError> for DecoderError::from#*/
fn from(err: HuffmanError) -> (ret: Self) 
 ensures ret == DecoderError::InvalidInput 
{
        match err {
            HuffmanError::InvalidInput => Self::InvalidInput
        }
    }
/*#E#*/
}
}
pub mod primitives {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
 broadcast use {axiom_question_mark, axiom_vec_short, group_bits}; 
use super::*;
/*#F decoder::primitives::decode_integer#*/
pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> (ret: Result<usize, DecoderError>) 
 requires 1 <= prefix_size <= 8
    ensures match int_dec(buf@, prefix_size as int) {
        IntR::Val(v, u) => ret == Ok::<usize, DecoderError>(u as usize) && *final(dst) == v && 0 < u <= buf@.len() && u <= 5 && 0 <= v <= u32::MAX,
        IntR::Short => ret == Err::<usize, DecoderError>(DecoderError::IntegerUnderflow),
        IntR::Long => ret == Err::<usize, DecoderError>(DecoderError::IntegerOverflow),
    } 
{
    
 proof { lemma_prefix(prefix_size, 0); lemma_prefix_forms(prefix_size); if buf@.len() > 0 { lemma_low(prefix_size, buf@[0]); } } 
if prefix_size < 1 || prefix_size > 8 {
        return Err(DecoderError::InvalidPrefix);
    }
    let mut total = 0;
    let byte = if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    } else {
        total += 1;
        buf[total - 1]
    };
    let mask = ((1 << prefix_size) - 1) as u8;
    let mut value = (byte & mask) as u32;
    if value < (mask as u32) {
        *dst = value;
        return Ok(total);
    }
    
 proof { lemma_pow_shifts(); } 
let mut shift = 0;
    loop 
 invariant 1 <= total <= 4, total <= buf@.len(), shift == 7 * (total - 1), 0 <= value < 256 + pow2i(shift as int), int_dec(buf@, prefix_size as int) == int_more(buf@, total as int, value as int, pow2i(shift as int))
        decreases 5 - total 
{
        let byte = if total >= buf.len() {
            return Err(DecoderError::IntegerUnderflow);
        } else {
            total += 1;
            buf[total - 1]
        };
        
 proof { lemma_dec_group(byte, shift as int); lemma_octet_forms(byte, shift as int); } 
value += ((byte & 0b01111111) as u32) << shift;
        shift += 7;
        if byte & 0b10000000 == 0 {
            *dst = value;
            return Ok(total);
        } else if total == 5 {
            return Err(DecoderError::IntegerOverflow);
        }
    }
}
/*#E#*/
/*#F decoder::primitives::decode_string#*/
pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> (ret: Result<usize, DecoderError>) 
 ensures match str_dec(buf@) {
        StrR::Val(s, u) => ret == Ok::<usize, DecoderError>(u as usize) && final(dst)@ == old(dst)@ + s && 0 < u <= buf@.len(),
        StrR::Short => ret == Err::<usize, DecoderError>(DecoderError::IntegerUnderflow),
        StrR::Long => ret == Err::<usize, DecoderError>(DecoderError::IntegerOverflow),
        StrR::Bad => ret == Err::<usize, DecoderError>(DecoderError::InvalidInput),
    } 
{
    
 proof { lemma_read_any(dst@); if buf@.len() > 0 { lemma_patterns(buf[0]); } lemma_int_dec(buf@, 7); } 
if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    }
    let huffman = buf[0] & 128 == 128;
    let mut len = 0;
    let mut total = decode_integer(buf, &mut len, 7)?;
    if len as usize > buf.len() - total {
        return Err(DecoderError::IntegerUnderflow);
    }
    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();
    total += len as usize;
    if huffman {
        crate::httlib_huffman::decode(&buf, dst, speed)?;
    } else {
        dst.append(&mut buf);
    }
    Ok(total)
}
/*#E#*/
}
pub use error::*;
use primitives::*;
pub use crate::httlib_huffman::DecoderSpeed;
use super::Table;

pub struct Decoder<'a> {
    speed: DecoderSpeed,
    max_dynamic_size: u32,
    table: Table<'a>,
}
impl<'a> Decoder<'a> {
pub const WITH_INDEXING: u8 = 0x4;
pub const NEVER_INDEXED: u8 = 0x8;
/*#F decoder::Decoder::with_dynamic_size#*/
pub fn with_dynamic_size(max_dynamic_size: u32) -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }), ret.limit() == max_dynamic_size 
{
        Self {
            speed: DecoderSpeed::FiveBits,
            max_dynamic_size,
            table: Table::with_dynamic_size(max_dynamic_size),
        }
    }
/*#E#*/
/*#F decoder::Decoder::max_dynamic_size#*/
pub fn max_dynamic_size(&self) -> (ret: u32) 
 ensures ret == self.limit() 
{
        self.max_dynamic_size
    }
/*#E#*/
/*#F decoder::Decoder::set_max_dynamic_size#*/
pub fn set_max_dynamic_size(&mut self, size: u32) 
 ensures final(self).limit() == size, final(self).tv() == old(self).tv(), old(self).wf() ==> final(self).wf() 
{
        self.max_dynamic_size = size;
    }
/*#E#*/
/*#F decoder::Decoder::decode#*/
pub fn decode(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> (ret: Result<usize, DecoderError>) 
 requires old(self).wf()
        ensures final(self).wf(), final(self).limit() == old(self).limit(), run_post(run_all(old(self).tv(), old(self).limit(), old(buf)@), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) 
{
        let mut total = 0;
        
 let ghost (t0, b0, d0) = (self.tv(), buf@, fields(dst@));
        proof { lemma_run_start(run_all(t0, self.limit(), b0), b0, d0, d0); } 
loop 
 invariant self.wf(), self.limit() == old(self).limit(), t0 == old(self).tv(), b0 == old(buf)@, d0 == fields(old(dst)@),
                running(run_all(t0, self.limit(), b0), b0, d0, run_all(self.tv(), self.limit(), buf@), buf@, fields(dst@), total as int)
            decreases buf@.len() 
{
            
 let ghost (t1, b1, d1, n1) = (self.tv(), buf@, fields(dst@), total as int);
            proof {
                lemma_run_all(t1, self.limit(), b1); assert(b1.skip(0) =~= b1);
                if b1.len() > 0 { assert(Seq::<Field>::empty() + run(t1, self.limit(), b1, 1).out =~= run(t1, self.limit(), b1, 1).out); }
            } 
if buf.is_empty() {
                return Ok(total);
            }
            let mut data = crate::trust::vec_with_capacity(1);
            total += self.decode_exact(buf, &mut data)?;
            dst.append(&mut data);
        
 proof { lemma_running(run_all(t0, self.limit(), b0), b0, d0, run_all(t1, self.limit(), b1), b1, d1, n1, step(t1, self.limit(), b1), run_all(self.tv(), self.limit(), buf@), buf@, fields(dst@)); } 
}
    }
/*#E#*/
/*#F decoder::Decoder::decode_exact#*/
pub fn decode_exact(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> (ret: Result<usize, DecoderError>) 
 requires old(self).wf()
        ensures final(self).wf(), final(self).limit() == old(self).limit(), run_post(run(old(self).tv(), old(self).limit(), old(buf)@, vec_capacity(*old(dst)) as int), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) 
{
        let mut total = 0;
        let mut limit = dst.v_capacity();
        
 let ghost (t0, b0, d0, c0) = (self.tv(), buf@, fields(dst@), limit as int);
        proof { lemma_run_start(run(t0, self.limit(), b0, c0), b0, d0, d0); } 
loop 
 invariant self.wf(), self.limit() == old(self).limit(), t0 == old(self).tv(), b0 == old(buf)@, d0 == fields(old(dst)@), c0 == vec_capacity(*old(dst)),
                running(run(t0, self.limit(), b0, c0), b0, d0, run(self.tv(), self.limit(), buf@, limit as int), buf@, fields(dst@), total as int)
            decreases buf@.len() 
{
            
 let ghost (t1, b1, d1, l1, n1) = (self.tv(), buf@, fields(dst@), limit as int, total as int);
            proof {
                if b1.len() > 0 { lemma_patterns(b1[0]); lemma_step(t1, self.limit(), b1); }
                if b1.len() == 0 || l1 == 0 || step(t1, self.limit(), b1) is Stop { lemma_running_end(run(t0, self.limit(), b0, c0), b0, d0, run(t1, self.limit(), b1, l1), b1, d1, n1); }
            } 
if buf.is_empty() || limit == 0 {
                return Ok(total);
            } else {
                limit -= 1;
            }
            let octet = buf[0];
            if octet & 128 == 128 {
                total += self.decode_indexed(buf, dst)?;
            } else if octet & 64 == 64 {
                total += self.decode_literal(buf, dst)?;
            } else if octet & 32 == 32 {
                total += self.update_max_dynamic_size(buf)?;
            } else if octet & 16 == 16 {
                total += self.decode_literal(buf, dst)?;
            } else {
                total += self.decode_literal(buf, dst)?;
            }
        
 proof { lemma_running(run(t0, self.limit(), b0, c0), b0, d0, run(t1, self.limit(), b1, l1), b1, d1, n1, step(t1, self.limit(), b1), run(self.tv(), self.limit(), buf@, limit as int), buf@, fields(dst@)); } 
}
    }
/*#E#*/
/*#F decoder::Decoder::decode_indexed#*/
fn decode_indexed(
        &self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> (ret: Result<usize, DecoderError>) 
 requires self.wf(), old(buf)@.len() > 0
        ensures step_post(dec_index(self.tv(), old(buf)@), self.tv(), old(buf)@, fields(old(dst)@), self.tv(), final(buf)@, fields(final(dst)@), ret) 
{
        let mut index = 0;
        let total = decode_integer(buf, &mut index, 7)?;
        let (name, value) = match self.table.get(index) {
            Some(field) => field,
            None => return Err(DecoderError::InvalidIndex),
        };
        dst.push((name.to_vec(), value.to_vec(), 0x0));
        buf.v_drain(0..total);
        Ok(total)
    }
/*#E#*/
/*#F decoder::Decoder::decode_literal#*/
fn decode_literal(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> (ret: Result<usize, DecoderError>) 
 requires old(self).wf(), old(buf)@.len() > 0, old(buf)@[0] < 0x20 || 0x40 <= old(buf)@[0] < 0x80
        ensures final(self).wf(), final(self).limit() == old(self).limit(), step_post(step(old(self).tv(), old(self).limit(), old(buf)@), old(self).tv(), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) 
{
        let mut total = 0;
        let octet = buf[0];
        
 proof { lemma_patterns(octet); assert(buf@.skip(0) =~= buf@); lemma_int_dec(buf@, 4); lemma_int_dec(buf@, 6); } 
let prefix = if octet & 64 == 64 {
            6
        } else {
            4
        };
        let mut index = 0;
        total += decode_integer(&buf[total..], &mut index, prefix)?;
        let name = if index == 0 {
            let mut name = Vec::new();
            total += decode_string(&buf[total..], self.speed, &mut name)?;
            name
        } else if let Some(h) = self.table.get(index) {
            h.0.to_vec()
        } else {
            return Err(DecoderError::InvalidIndex);
        };
        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;
        if octet & 64 == 64 {
            self.table.insert(name.clone(), value.clone());
            dst.push((name, value, 0x4));
        } else if octet & 16 == 16 {
            dst.push((name, value, 0x8));
        } else {
            dst.push((name, value, 0x0));
        }
        buf.v_drain(0..total);
        Ok(total)
    }
/*#E#*/
/*#F decoder::Decoder::update_max_dynamic_size#*/
fn update_max_dynamic_size(
        &mut self,
        buf: &mut Vec<u8>,
    ) -> (ret: Result<usize, DecoderError>) 
 requires old(self).wf(), old(buf)@.len() > 0
        ensures final(self).wf(), final(self).limit() == old(self).limit(), step_post(dec_size(old(self).tv(), old(self).limit(), old(buf)@), old(self).tv(), old(buf)@, Seq::empty(), final(self).tv(), final(buf)@, Seq::empty(), ret) 
{
        let mut new_size = 0;
        let total = decode_integer(buf, &mut new_size, 5)?;
        if new_size > self.max_dynamic_size {
            return Err(DecoderError::InvalidMaxDynamicSize)
        } else {
            self.table.update_max_dynamic_size(new_size);
        }
        buf.v_drain(0..total);
        Ok(total)
    }
/*#E#*/
}
impl<'a> Default for Decoder<'a> {
/*#F decoder::Default for Decoder::default#*/
fn default() -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }), ret.limit() == 4096 
{
        let table = Table::default();
        Self {
            speed: DecoderSpeed::FiveBits,
            max_dynamic_size: table.max_dynamic_size(),
            table,
        }
    }
/*#E#*/
}
}
pub mod encoder {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};

impl<'a> Encoder<'a> {
    pub closed spec fn tv(&self) -> TV { self.table.tv() }
    pub closed spec fn wf(&self) -> bool { self.table.wf() }
}
broadcast use {axiom_vec_short, crate::httlib_hpack::table::lemma_table_wf, lemma_short_table, lemma_assoc, group_bits};

pub mod error {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
 impl vstd::std_specs::convert::FromSpecImpl<HuffmanError> for EncoderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: HuffmanError) -> Self { EncoderError::InvalidInput } } 
use std::fmt;
use std::error;
use crate::httlib_huffman::{EncoderError as HuffmanError};
#[derive(PartialEq)]
pub enum EncoderError {
    InvalidInput,
    InvalidIndex,
    InvalidPrefix,
    IntegerOverflow,
}
impl From<HuffmanError> for EncoderError {
/*#F encoder::error::From<HuffmanError> for EncoderError::from#*/
fn from(err: HuffmanError) -> (ret: Self) 
 ensures ret == EncoderError::InvalidInput 
{
        match err {
            HuffmanError::InvalidInput => Self::InvalidInput
        }
    }
/*#E#*/
}
}
pub mod input {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};

impl vstd::std_specs::convert::FromSpecImpl<u32> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { EncoderInput::Indexed(v) } }
impl vstd::std_specs::convert::FromSpecImpl<(u32, Vec<u8>, u8)> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (u32, Vec<u8>, u8)) -> Self { EncoderInput::IndexedName(v.0, v.1, v.2) } }
impl vstd::std_specs::convert::FromSpecImpl<(Vec<u8>, Vec<u8>, u8)> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (Vec<u8>, Vec<u8>, u8)) -> Self { EncoderInput::Literal(v.0, v.1, v.2) } }


pub enum EncoderInput {
    Indexed(u32),
    IndexedName(u32, Vec<u8>, u8),
    Literal(Vec<u8>, Vec<u8>, u8),
}
impl From<u32> for EncoderInput {
/*#F encoder::input::From<u32> for EncoderInput::from#*/
fn from(field: u32) -> (ret: Self) 
 ensures ret == EncoderInput::Indexed(field), 
{
        EncoderInput::Indexed(field)
    }
/*#E#*/
}
impl From<(u32, Vec<u8>, u8)> for EncoderInput {
/*#F encoder::input::From<( u32,Vec<u8>,u8 )> for EncoderInput::from#*/
fn from(field: (u32, Vec<u8>, u8)) -> (ret: Self) 
 ensures ret == EncoderInput::IndexedName(field.0, field.1, field.2), 
{
        EncoderInput::IndexedName(field.0, field.1, field.2)
    }
/*#E#*/
}
impl From<(Vec<u8>, Vec<u8>, u8)> for EncoderInput {
/*#F encoder::input::From<( Vec<u8>,Vec<u8>,u8 )> for EncoderInput::from#*/
fn from(field: (Vec<u8>, Vec<u8>, u8)) -> (ret: Self) 
 ensures ret == EncoderInput::Literal(field.0, field.1, field.2), 
{
        EncoderInput::Literal(field.0, field.1, field.2)
    }
/*#E#*/
}
}
pub mod primitives {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
 broadcast use {axiom_vec_short, lemma_assoc, group_bits}; 
use super::*;
/*#F encoder::primitives::encode_integer#*/
pub(crate) fn encode_integer(
    value: u32,
    flags: u8,
    prefix_size: u8,
    dst: &mut Vec<u8>,
) -> (ret: Result<(), EncoderError>) 
 ensures 1 <= prefix_size <= 8 ==> ret is Ok && final(dst)@ == old(dst)@ + int_enc(value as int, flags, prefix_size as int),
        !(1 <= prefix_size <= 8) ==> ret is Err && final(dst)@ == old(dst)@ 
{
    
 broadcast use lemma_push_one;
    let ghost (v0, f0) = (value as int, flags);
    proof { lemma_prefix(prefix_size, flags); if 1 <= prefix_size <= 8 { lemma_prefix_forms(prefix_size); } } 
if prefix_size < 1 || prefix_size > 8 {
        return Err(EncoderError::InvalidPrefix);
    }
    let mask = ((1 << prefix_size) - 1) as u8;
    let flags = flags & 255 - mask as u8;
    if value < mask as u32 {
        dst.push(flags | value as u8);
        return Ok(());
    }
    let mut value = value - mask as u32;
    dst.push(flags | mask as u8);
    while value >= 128 
 invariant dst@ + tail7(value as int) == old(dst)@ + int_enc(v0, f0, prefix_size as int) decreases value 
{
        
 proof { lemma_group_forms(value); if value >= 128 { lemma_group(value, dst@); } } 
dst.push(0b10000000 | value as u8);
        value >>= 7;
    }
    dst.push(value as u8);
    Ok(())
}
/*#E#*/
/*#F encoder::primitives::encode_string#*/
pub(crate) fn encode_string(
    data: Vec<u8>,
    huffman: bool,
    dst: &mut Vec<u8>,
) -> (ret: Result<(), EncoderError>) 
 ensures ret is Ok ==> final(dst)@ == old(dst)@ + str_enc(data@, huffman), ret is Err ==> raw(data@, huffman).len() > u32::MAX && final(dst)@ == old(dst)@ && ret == Err::<(), EncoderError>(EncoderError::IntegerOverflow) 
{
    
 proof { lemma_raw_all(data@); } 
let (flags, bytes) = if huffman {
        let mut dst = Vec::new();
        crate::httlib_huffman::encode(&data, &mut dst)?;
        (0x80, dst)
    } else {
        (0, data.to_vec())
    };
    
 proof { assert(bytes@ =~= raw(data@, huffman)); } 
let len = bytes.len();
    if len > u32::MAX as usize {
        return Err(EncoderError::IntegerOverflow);
    }
    encode_integer(len as u32, flags, 7, dst)?;
    dst.append(&mut bytes.to_vec());
    return Ok(());
}
/*#E#*/
}
pub use error::*;
pub use input::*;
use primitives::*;
use crate::httlib_hpack::table::Table;

pub struct Encoder<'a> {
    table: Table<'a>,
}
impl<'a> Encoder<'a> {
pub const HUFFMAN_NAME: u8 = 0x1;
pub const HUFFMAN_VALUE: u8 = 0x2;
pub const WITH_INDEXING: u8 = 0x4;
pub const NEVER_INDEXED: u8 = 0x8;
pub const BEST_FORMAT: u8 = 0x10;
/*#F encoder::Encoder::with_dynamic_size#*/
pub fn with_dynamic_size(max_dynamic_size: u32) -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }) 
{
        Self {
            table: Table::with_dynamic_size(max_dynamic_size),
        }
    }
/*#E#*/
/*#F encoder::Encoder::max_dynamic_size#*/
pub fn max_dynamic_size(&mut self) -> (ret: u32) 
 requires old(self).wf() ensures final(self).wf(), final(self).tv() == old(self).tv(), ret == old(self).tv().max 
{
        self.table.max_dynamic_size()
    }
/*#E#*/
/*#F encoder::Encoder::encode#*/
pub fn encode<F>(
        &mut self,
        field: F,
        dst: &mut Vec<u8>,
    ) -> (ret: Result<(), EncoderError>)
    where
        F: Into<EncoderInput>,
    
 requires old(self).wf()
        ensures final(self).wf(), exists|x: EncoderInput| (<F as IntoSpec<EncoderInput>>::obeys_into_spec() ==> x == field.into_spec()) && enc_post(old(self).tv(), #[trigger] inp(x), enc(old(self).tv(), inp(x)), old(dst)@, final(self).tv(), final(dst)@, ret) 
{
        match field.into() {
            EncoderInput::Indexed(index) => {
                
 let ghost x = inp(EncoderInput::Indexed(index)); 
self.encode_indexed(index, dst)
            },
            EncoderInput::IndexedName(index, value, flags) => {
                
 let ghost x = inp(EncoderInput::IndexedName(index, value, flags)); 
self.encode_indexed_name(index, value, flags, dst)
            },
            EncoderInput::Literal(name, value, flags) => {
                
 let ghost x = inp(EncoderInput::Literal(name, value, flags)); 
if flags & 0x10 == 0x10 {
                    
 proof {
                        lemma_never(flags);
                        assert forall|r: Option<(int, bool)>| #[trigger] found(self.tv(), name@, value@, r) implies find(self.tv(), name@, value@) == r by { lemma_found(self.tv(), name@, value@, r); }
                    } 
match self.table.find(&name, &value) {
                        Some((index, true)) if flags & 0xC != 0x8 => {
                        self.encode_indexed(index as u32, dst)
                        },
                        Some((index, _)) => {
                        self.encode_indexed_name(index as u32, value, flags, dst)
                        },
                        None => {
                        self.encode_literal(name, value, flags, dst)
                        },
                    }
                } else {
                    self.encode_literal(name, value, flags, dst)
                }
            },
        }
    }
/*#E#*/
/*#F encoder::Encoder::encode_indexed#*/
pub fn encode_indexed(
        &self,
        index: u32,
        dst: &mut Vec<u8>,
    ) -> (ret: Result<(), EncoderError>) 
 requires self.wf()
        ensures enc_post(self.tv(), Inp::Idx(index as int), enc_index(self.tv(), index as int), old(dst)@, self.tv(), final(dst)@, ret) 
{
        if self.table.get(index).is_none() {
            return Err(EncoderError::InvalidIndex);
        }
        encode_integer(index, 0x80, 7, dst)
    }
/*#E#*/
/*#F encoder::Encoder::encode_indexed_name#*/
pub fn encode_indexed_name(
        &mut self,
        index: u32,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> (ret: Result<(), EncoderError>) 
 requires old(self).wf()
        ensures final(self).wf(), enc_post(old(self).tv(), Inp::Name(index as int, value@, flags), enc_name(old(self).tv(), index as int, value@, flags), old(dst)@, final(self).tv(), final(dst)@, ret) 
{
        let name = if let Some(entry) = self.table.get(index) {
            entry.0.to_vec()
        } else {
            return Err(EncoderError::InvalidIndex);
        };
        if flags & 0x4 == 0x4 {
            self.table.insert(name, value.clone());
            encode_integer(index, 0x40, 6, dst)?;
        } else if flags & 0x8 == 0x8 {
            encode_integer(index, 0b00010000, 4, dst)?;
        } else {
            encode_integer(index, 0x0, 4, dst)?;
        }
        encode_string(value, flags & 0x2 == 0x2, dst)
    }
/*#E#*/
/*#F encoder::Encoder::encode_literal#*/
pub fn encode_literal(
        &mut self,
        name: Vec<u8>,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> (ret: Result<(), EncoderError>) 
 requires old(self).wf()
        ensures final(self).wf(), enc_post(old(self).tv(), Inp::Lit(name@, value@, flags), enc_lit(old(self).tv(), name@, value@, flags), old(dst)@, final(self).tv(), final(dst)@, ret) 
{
        
 proof { lemma_zero(dst@); } 
if flags & 0x4 == 0x4 {
            dst.push(0x40);
            self.table.insert(name.clone(), value.clone());
        } else if flags & 0x8 == 0x8 {
            dst.push(0b00010000);
        } else {
            dst.push(0x0);
        }
        encode_string(name, flags & 0x1 == 0x1, dst)?;
        encode_string(value, flags & 0x2 == 0x2, dst)
    }
/*#E#*/
/*#F encoder::Encoder::update_max_dynamic_size#*/
pub fn update_max_dynamic_size(
        &mut self,
        size: u32,
        dst: &mut Vec<u8>,
    ) -> (ret: Result<(), EncoderError>) 
 requires old(self).wf()
        ensures final(self).wf(), ret is Ok, enc(old(self).tv(), Inp::Size(size as int)) == Some((final(self).tv(), final(dst)@.skip(old(dst)@.len() as int))), final(dst)@.take(old(dst)@.len() as int) == old(dst)@ 
{
        self.table.update_max_dynamic_size(size);
        encode_integer(size, 0b00100000, 5, dst)
    }
/*#E#*/
}
impl<'a> Default for Encoder<'a> {
/*#F encoder::Default for Encoder::default#*/
fn default() -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) 
{
        Self {
            table: Table::default(),
        }
    }
/*#E#*/
}
}
pub mod table {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};

impl<'a> Table<'a> {
    pub closed spec fn tv(&self) -> TV { self.dynamic_table.tv() }
    pub closed spec fn wf(&self) -> bool { self.dynamic_table.wf() && is_static(self.static_table@) }
}
pub broadcast proof fn lemma_table_wf(t: Table)
    ensures #[trigger] t.wf() ==> fits(t.tv())
{ broadcast use crate::httlib_hpack::table::dynamic::lemma_wf; }
broadcast use {crate::httlib_hpack::table::dynamic::lemma_wf, lemma_short_table};

pub mod dynamic {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};

impl DynamicTable {
    pub closed spec fn tv(&self) -> TV { TV { dy: entries(self.inner@), max: self.max_size as int } }
    pub closed spec fn wf(&self) -> bool { self.size == dsize(entries(self.inner@)) && fits(self.tv()) }
}
pub broadcast proof fn lemma_wf(d: DynamicTable)
    ensures #[trigger] d.wf() ==> fits(d.tv())
{}
broadcast use {axiom_vec_short, lemma_entries_push_front, lemma_entries_drop_last, lemma_entries_len};

use std::collections::VecDeque;

pub struct DynamicTable {
    inner: VecDeque<(Vec<u8>, Vec<u8>)>,
    size: usize,
    max_size: u32,
}
impl DynamicTable {
/*#F table::dynamic::DynamicTable::with_size#*/
pub fn with_size(max_size: u32) -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_size as int }) 
{
        
 proof { assert(entries(Seq::empty()) =~= Seq::empty()); } 
Self {
            inner: VecDeque::new(),
            size: 0,
            max_size,
        }
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::len#*/
pub fn len(&self) -> (ret: usize) 
 ensures ret == self.tv().dy.len() 
{
        self.inner.len()
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::size#*/
pub fn size(&self) -> (ret: u32) 
 requires self.wf() ensures ret == dsize(self.tv().dy) 
{
        self.size as u32
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::max_size#*/
pub fn max_size(&self) -> (ret: u32) 
 ensures ret == self.tv().max 
{
        self.max_size
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::update_max_size#*/
pub fn update_max_size(&mut self, size: u32) 
 requires old(self).wf() ensures final(self).wf(), final(self).tv() == resize(old(self).tv(), size as int) 
{
        self.max_size = size;
        self.consolidate();
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::get#*/
pub fn get(&self, index: u32) -> (ret: Option<(&[u8], &[u8])>) 
 ensures match ret { Some(h) => index < self.tv().dy.len() && (h.0@, h.1@) == self.tv().dy[index as int], None => index >= self.tv().dy.len() } 
{
        match self.inner.get(index as usize) {
            Some(h) => Some((&h.0, &h.1)),
            None => None,
        }
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::insert#*/
pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) 
 requires old(self).wf() ensures final(self).wf(), final(self).tv() == insert(old(self).tv(), name@, value@) 
{
        
 proof { lemma_dsize_push_front(entries(self.inner@), (name@, value@)); } 
self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));
        self.consolidate();
    }
/*#E#*/
/*#F table::dynamic::DynamicTable::consolidate#*/
fn consolidate(&mut self) 
 requires old(self).size == dsize(entries(old(self).inner@))
        ensures final(self).wf(), final(self).tv() == (TV { dy: evict(entries(old(self).inner@), old(self).max_size as int), max: old(self).max_size as int }) 
{
        
 proof { lemma_evict_fits(entries(self.inner@), self.max_size as int); } 
while self.size > self.max_size as usize 
 invariant self.size == dsize(entries(self.inner@)), self.max_size == old(self).max_size,
                evict(entries(self.inner@), self.max_size as int) == evict(entries(old(self).inner@), self.max_size as int)
            decreases self.inner@.len() 
{
            
 proof { lemma_pop(self.inner@); } 
if let Some(header) = self.inner.pop_back() {
                self.size -= header.0.len() + header.1.len() + 32;
            }
        }
    }
/*#E#*/
}
impl Default for DynamicTable {
/*#F table::dynamic::Default for DynamicTable::default#*/
fn default() -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) 
{
        Self::with_size(4096)
    }
/*#E#*/
}
}
pub mod iter {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
use super::Table;
#[derive(Clone, Copy)]
pub struct TableIter<'a> {
    pub index: u32,
    pub table: &'a Table<'a>,
}
impl<'a>  TableIter<'a> {
/*#F table::iter::Iterator for TableIter::next#*/
pub fn next(&mut self) -> (ret: Option<(&'a [u8], &'a [u8])>) 
 requires old(self).table.wf(), old(self).index < u32::MAX
        ensures is_entry(old(self).table.tv(), old(self).index as int, ret), final(self).index == old(self).index + 1, final(self).table == old(self).table 
{
        let res = self.table.get(self.index);
        self.index += 1;
        res
    }
/*#E#*/
}
}
pub mod r#static {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::pspec::*;
#[allow(unused_imports)] use crate::statics::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
pub type StaticTable<'a> = &'a [(&'a [u8], &'a [u8])];
/*#F table::static::STATIC_TABLE#*/
pub exec static STATIC_TABLE: &'static [(&'static [u8], &'static [u8])] ensures is_static(STATIC_TABLE@) { let r_: &'static [(&'static [u8], &'static [u8])] = &[
    (&[58u8, 97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 116u8, 121u8], &[]),
    (&[58u8, 109u8, 101u8, 116u8, 104u8, 111u8, 100u8], &[71u8, 69u8, 84u8]),
    (&[58u8, 109u8, 101u8, 116u8, 104u8, 111u8, 100u8], &[80u8, 79u8, 83u8, 84u8]),
    (&[58u8, 112u8, 97u8, 116u8, 104u8], &[47u8]),
    (&[58u8, 112u8, 97u8, 116u8, 104u8], &[47u8, 105u8, 110u8, 100u8, 101u8, 120u8, 46u8, 104u8, 116u8, 109u8, 108u8]),
    (&[58u8, 115u8, 99u8, 104u8, 101u8, 109u8, 101u8], &[104u8, 116u8, 116u8, 112u8]),
    (&[58u8, 115u8, 99u8, 104u8, 101u8, 109u8, 101u8], &[104u8, 116u8, 116u8, 112u8, 115u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[50u8, 48u8, 48u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[50u8, 48u8, 52u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[50u8, 48u8, 54u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[51u8, 48u8, 52u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[52u8, 48u8, 48u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[52u8, 48u8, 52u8]),
    (&[58u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8], &[53u8, 48u8, 48u8]),
    (&[97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 99u8, 104u8, 97u8, 114u8, 115u8, 101u8, 116u8], &[]),
    (&[97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], &[103u8, 122u8, 105u8, 112u8, 44u8, 32u8, 100u8, 101u8, 102u8, 108u8, 97u8, 116u8, 101u8]),
    (&[97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 108u8, 97u8, 110u8, 103u8, 117u8, 97u8, 103u8, 101u8], &[]),
    (&[97u8, 99u8, 99u8, 101u8, 112u8, 116u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8, 115u8], &[]),
    (&[97u8, 99u8, 99u8, 101u8, 112u8, 116u8], &[]),
    (&[97u8, 99u8, 99u8, 101u8, 115u8, 115u8, 45u8, 99u8, 111u8, 110u8, 116u8, 114u8, 111u8, 108u8, 45u8, 97u8, 108u8, 108u8, 111u8, 119u8, 45u8, 111u8, 114u8, 105u8, 103u8, 105u8, 110u8], &[]),
    (&[97u8, 103u8, 101u8], &[]),
    (&[97u8, 108u8, 108u8, 111u8, 119u8], &[]),
    (&[97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 122u8, 97u8, 116u8, 105u8, 111u8, 110u8], &[]),
    (&[99u8, 97u8, 99u8, 104u8, 101u8, 45u8, 99u8, 111u8, 110u8, 116u8, 114u8, 111u8, 108u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 100u8, 105u8, 115u8, 112u8, 111u8, 115u8, 105u8, 116u8, 105u8, 111u8, 110u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 97u8, 110u8, 103u8, 117u8, 97u8, 103u8, 101u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 101u8, 110u8, 103u8, 116u8, 104u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 111u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8], &[]),
    (&[99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 116u8, 121u8, 112u8, 101u8], &[]),
    (&[99u8, 111u8, 111u8, 107u8, 105u8, 101u8], &[]),
    (&[100u8, 97u8, 116u8, 101u8], &[]),
    (&[101u8, 116u8, 97u8, 103u8], &[]),
    (&[101u8, 120u8, 112u8, 101u8, 99u8, 116u8], &[]),
    (&[101u8, 120u8, 112u8, 105u8, 114u8, 101u8, 115u8], &[]),
    (&[102u8, 114u8, 111u8, 109u8], &[]),
    (&[104u8, 111u8, 115u8, 116u8], &[]),
    (&[105u8, 102u8, 45u8, 109u8, 97u8, 116u8, 99u8, 104u8], &[]),
    (&[105u8, 102u8, 45u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8, 45u8, 115u8, 105u8, 110u8, 99u8, 101u8], &[]),
    (&[105u8, 102u8, 45u8, 110u8, 111u8, 110u8, 101u8, 45u8, 109u8, 97u8, 116u8, 99u8, 104u8], &[]),
    (&[105u8, 102u8, 45u8, 114u8, 97u8, 110u8, 103u8, 101u8], &[]),
    (&[105u8, 102u8, 45u8, 117u8, 110u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8, 45u8, 115u8, 105u8, 110u8, 99u8, 101u8], &[]),
    (&[108u8, 97u8, 115u8, 116u8, 45u8, 109u8, 111u8, 100u8, 105u8, 102u8, 105u8, 101u8, 100u8], &[]),
    (&[108u8, 105u8, 110u8, 107u8], &[]),
    (&[108u8, 111u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8], &[]),
    (&[109u8, 97u8, 120u8, 45u8, 102u8, 111u8, 114u8, 119u8, 97u8, 114u8, 100u8, 115u8], &[]),
    (&[112u8, 114u8, 111u8, 120u8, 121u8, 45u8, 97u8, 117u8, 116u8, 104u8, 101u8, 110u8, 116u8, 105u8, 99u8, 97u8, 116u8, 101u8], &[]),
    (&[112u8, 114u8, 111u8, 120u8, 121u8, 45u8, 97u8, 117u8, 116u8, 104u8, 111u8, 114u8, 105u8, 122u8, 97u8, 116u8, 105u8, 111u8, 110u8], &[]),
    (&[114u8, 97u8, 110u8, 103u8, 101u8], &[]),
    (&[114u8, 101u8, 102u8, 101u8, 114u8, 101u8, 114u8], &[]),
    (&[114u8, 101u8, 102u8, 114u8, 101u8, 115u8, 104u8], &[]),
    (&[114u8, 101u8, 116u8, 114u8, 121u8, 45u8, 97u8, 102u8, 116u8, 101u8, 114u8], &[]),
    (&[115u8, 101u8, 114u8, 118u8, 101u8, 114u8], &[]),
    (&[115u8, 101u8, 116u8, 45u8, 99u8, 111u8, 111u8, 107u8, 105u8, 101u8], &[]),
    (&[115u8, 116u8, 114u8, 105u8, 99u8, 116u8, 45u8, 116u8, 114u8, 97u8, 110u8, 115u8, 112u8, 111u8, 114u8, 116u8, 45u8, 115u8, 101u8, 99u8, 117u8, 114u8, 105u8, 116u8, 121u8], &[]),
    (&[116u8, 114u8, 97u8, 110u8, 115u8, 102u8, 101u8, 114u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8], &[]),
    (&[117u8, 115u8, 101u8, 114u8, 45u8, 97u8, 103u8, 101u8, 110u8, 116u8], &[]),
    (&[118u8, 97u8, 114u8, 121u8], &[]),
    (&[118u8, 105u8, 97u8], &[]),
    (&[119u8, 119u8, 119u8, 45u8, 97u8, 117u8, 116u8, 104u8, 101u8, 110u8, 116u8, 105u8, 99u8, 97u8, 116u8, 101u8], &[]),
];
proof { reveal(rfc_static); assert(r_@.len() == 61);
assert(r_@[0].0@ =~= rfc_static(0).0); assert(r_@[0].1@ =~= rfc_static(0).1);
assert(r_@[1].0@ =~= rfc_static(1).0); assert(r_@[1].1@ =~= rfc_static(1).1);
assert(r_@[2].0@ =~= rfc_static(2).0); assert(r_@[2].1@ =~= rfc_static(2).1);
assert(r_@[3].0@ =~= rfc_static(3).0); assert(r_@[3].1@ =~= rfc_static(3).1);
assert(r_@[4].0@ =~= rfc_static(4).0); assert(r_@[4].1@ =~= rfc_static(4).1);
assert(r_@[5].0@ =~= rfc_static(5).0); assert(r_@[5].1@ =~= rfc_static(5).1);
assert(r_@[6].0@ =~= rfc_static(6).0); assert(r_@[6].1@ =~= rfc_static(6).1);
assert(r_@[7].0@ =~= rfc_static(7).0); assert(r_@[7].1@ =~= rfc_static(7).1);
assert(r_@[8].0@ =~= rfc_static(8).0); assert(r_@[8].1@ =~= rfc_static(8).1);
assert(r_@[9].0@ =~= rfc_static(9).0); assert(r_@[9].1@ =~= rfc_static(9).1);
assert(r_@[10].0@ =~= rfc_static(10).0); assert(r_@[10].1@ =~= rfc_static(10).1);
assert(r_@[11].0@ =~= rfc_static(11).0); assert(r_@[11].1@ =~= rfc_static(11).1);
assert(r_@[12].0@ =~= rfc_static(12).0); assert(r_@[12].1@ =~= rfc_static(12).1);
assert(r_@[13].0@ =~= rfc_static(13).0); assert(r_@[13].1@ =~= rfc_static(13).1);
assert(r_@[14].0@ =~= rfc_static(14).0); assert(r_@[14].1@ =~= rfc_static(14).1);
assert(r_@[15].0@ =~= rfc_static(15).0); assert(r_@[15].1@ =~= rfc_static(15).1);
assert(r_@[16].0@ =~= rfc_static(16).0); assert(r_@[16].1@ =~= rfc_static(16).1);
assert(r_@[17].0@ =~= rfc_static(17).0); assert(r_@[17].1@ =~= rfc_static(17).1);
assert(r_@[18].0@ =~= rfc_static(18).0); assert(r_@[18].1@ =~= rfc_static(18).1);
assert(r_@[19].0@ =~= rfc_static(19).0); assert(r_@[19].1@ =~= rfc_static(19).1);
assert(r_@[20].0@ =~= rfc_static(20).0); assert(r_@[20].1@ =~= rfc_static(20).1);
assert(r_@[21].0@ =~= rfc_static(21).0); assert(r_@[21].1@ =~= rfc_static(21).1);
assert(r_@[22].0@ =~= rfc_static(22).0); assert(r_@[22].1@ =~= rfc_static(22).1);
assert(r_@[23].0@ =~= rfc_static(23).0); assert(r_@[23].1@ =~= rfc_static(23).1);
assert(r_@[24].0@ =~= rfc_static(24).0); assert(r_@[24].1@ =~= rfc_static(24).1);
assert(r_@[25].0@ =~= rfc_static(25).0); assert(r_@[25].1@ =~= rfc_static(25).1);
assert(r_@[26].0@ =~= rfc_static(26).0); assert(r_@[26].1@ =~= rfc_static(26).1);
assert(r_@[27].0@ =~= rfc_static(27).0); assert(r_@[27].1@ =~= rfc_static(27).1);
assert(r_@[28].0@ =~= rfc_static(28).0); assert(r_@[28].1@ =~= rfc_static(28).1);
assert(r_@[29].0@ =~= rfc_static(29).0); assert(r_@[29].1@ =~= rfc_static(29).1);
assert(r_@[30].0@ =~= rfc_static(30).0); assert(r_@[30].1@ =~= rfc_static(30).1);
assert(r_@[31].0@ =~= rfc_static(31).0); assert(r_@[31].1@ =~= rfc_static(31).1);
assert(r_@[32].0@ =~= rfc_static(32).0); assert(r_@[32].1@ =~= rfc_static(32).1);
assert(r_@[33].0@ =~= rfc_static(33).0); assert(r_@[33].1@ =~= rfc_static(33).1);
assert(r_@[34].0@ =~= rfc_static(34).0); assert(r_@[34].1@ =~= rfc_static(34).1);
assert(r_@[35].0@ =~= rfc_static(35).0); assert(r_@[35].1@ =~= rfc_static(35).1);
assert(r_@[36].0@ =~= rfc_static(36).0); assert(r_@[36].1@ =~= rfc_static(36).1);
assert(r_@[37].0@ =~= rfc_static(37).0); assert(r_@[37].1@ =~= rfc_static(37).1);
assert(r_@[38].0@ =~= rfc_static(38).0); assert(r_@[38].1@ =~= rfc_static(38).1);
assert(r_@[39].0@ =~= rfc_static(39).0); assert(r_@[39].1@ =~= rfc_static(39).1);
assert(r_@[40].0@ =~= rfc_static(40).0); assert(r_@[40].1@ =~= rfc_static(40).1);
assert(r_@[41].0@ =~= rfc_static(41).0); assert(r_@[41].1@ =~= rfc_static(41).1);
assert(r_@[42].0@ =~= rfc_static(42).0); assert(r_@[42].1@ =~= rfc_static(42).1);
assert(r_@[43].0@ =~= rfc_static(43).0); assert(r_@[43].1@ =~= rfc_static(43).1);
assert(r_@[44].0@ =~= rfc_static(44).0); assert(r_@[44].1@ =~= rfc_static(44).1);
assert(r_@[45].0@ =~= rfc_static(45).0); assert(r_@[45].1@ =~= rfc_static(45).1);
assert(r_@[46].0@ =~= rfc_static(46).0); assert(r_@[46].1@ =~= rfc_static(46).1);
assert(r_@[47].0@ =~= rfc_static(47).0); assert(r_@[47].1@ =~= rfc_static(47).1);
assert(r_@[48].0@ =~= rfc_static(48).0); assert(r_@[48].1@ =~= rfc_static(48).1);
assert(r_@[49].0@ =~= rfc_static(49).0); assert(r_@[49].1@ =~= rfc_static(49).1);
assert(r_@[50].0@ =~= rfc_static(50).0); assert(r_@[50].1@ =~= rfc_static(50).1);
assert(r_@[51].0@ =~= rfc_static(51).0); assert(r_@[51].1@ =~= rfc_static(51).1);
assert(r_@[52].0@ =~= rfc_static(52).0); assert(r_@[52].1@ =~= rfc_static(52).1);
assert(r_@[53].0@ =~= rfc_static(53).0); assert(r_@[53].1@ =~= rfc_static(53).1);
assert(r_@[54].0@ =~= rfc_static(54).0); assert(r_@[54].1@ =~= rfc_static(54).1);
assert(r_@[55].0@ =~= rfc_static(55).0); assert(r_@[55].1@ =~= rfc_static(55).1);
assert(r_@[56].0@ =~= rfc_static(56).0); assert(r_@[56].1@ =~= rfc_static(56).1);
assert(r_@[57].0@ =~= rfc_static(57).0); assert(r_@[57].1@ =~= rfc_static(57).1);
assert(r_@[58].0@ =~= rfc_static(58).0); assert(r_@[58].1@ =~= rfc_static(58).1);
assert(r_@[59].0@ =~= rfc_static(59).0); assert(r_@[59].1@ =~= rfc_static(59).1);
assert(r_@[60].0@ =~= rfc_static(60).0); assert(r_@[60].1@ =~= rfc_static(60).1);
} r_ }
/*#E#*/
}
pub use iter::TableIter;
use dynamic::DynamicTable;
use r#static::{StaticTable, STATIC_TABLE};

pub struct Table<'a> {
    static_table: StaticTable<'a>,
    dynamic_table: DynamicTable,
}
impl<'a> Table<'a> {
/*#F table::Table::with_dynamic_size#*/
pub fn with_dynamic_size(max_dynamic_size: u32) -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }) 
{
        Self {
            static_table: STATIC_TABLE,
            dynamic_table: DynamicTable::with_size(max_dynamic_size),
        }
    }
/*#E#*/
/*#F table::Table::len#*/
pub fn len(&self) -> (ret: usize) 
 requires self.wf() ensures ret == 61 + self.tv().dy.len() 
{
        self.static_table.len() + self.dynamic_table.len()
    }
/*#E#*/
/*#F table::Table::dynamic_len#*/
pub fn dynamic_len(&self) -> (ret: usize) 
 ensures ret == self.tv().dy.len() 
{
        self.dynamic_table.len()
    }
/*#E#*/
/*#F table::Table::dynamic_size#*/
pub fn dynamic_size(&self) -> (ret: u32) 
 requires self.wf() ensures ret == dsize(self.tv().dy), ret <= self.tv().max 
{
        self.dynamic_table.size()
    }
/*#E#*/
/*#F table::Table::max_dynamic_size#*/
pub fn max_dynamic_size(&self) -> (ret: u32) 
 ensures ret == self.tv().max 
{
        self.dynamic_table.max_size()
    }
/*#E#*/
/*#F table::Table::update_max_dynamic_size#*/
pub fn update_max_dynamic_size(&mut self, size: u32) 
 requires old(self).wf() ensures final(self).wf(), final(self).tv() == resize(old(self).tv(), size as int) 
{
        self.dynamic_table.update_max_size(size);
    }
/*#E#*/
/*#F table::Table::iter#*/
pub fn iter(&'a self) -> (ret: TableIter<'a>) 
 ensures ret.index == 1, ret.table == self 
{
        TableIter{ index: 1, table: &self }
    }
/*#E#*/
/*#F table::Table::get#*/
pub fn get(&self, index: u32) -> (ret: Option<(&[u8], &[u8])>) 
 requires self.wf() ensures is_entry(self.tv(), index as int, ret) 
{
        let index = if index == 0 {
            return None;
        } else {
            index - 1
        };
        let static_len = self.static_table.len() as u32;
        if index < static_len {
            Some(self.static_table[index as usize])
        } else {
            self.dynamic_table.get(index - static_len)
        }
    }
/*#E#*/
/*#F table::Table::find#*/
pub fn find(&self, name: &[u8], value: &[u8]) -> (ret: Option<(usize, bool)>) 
 requires self.wf() ensures found(self.tv(), name@, value@, opt_index(ret)) 
{
        
 broadcast use lemma_same_octets; 
let mut name_match = None;
        { let mut it_ = self.iter(); let mut n_: usize = 0; loop 
 invariant_except_break it_.index == n_ + 1,
            invariant self.wf(), it_.table == self, n_ <= 61 + self.tv().dy.len(), searched(self.tv(), name@, value@, n_ as int, name_match)
            ensures n_ == 61 + self.tv().dy.len()
            decreases 62 + self.tv().dy.len() - n_ 
{ let h = match it_.next() { Some(x_) => x_, None => break }; let i = n_; n_ = n_ + 1;
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true));
                } else if name_match.is_none() {
                    name_match = Some(i + 1);
                }
            }
        } }
        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
    }
/*#E#*/
/*#F table::Table::insert#*/
pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) 
 requires old(self).wf() ensures final(self).wf(), final(self).tv() == insert(old(self).tv(), name@, value@) 
{
        self.dynamic_table.insert(name, value);
    }
/*#E#*/
}
impl<'a> Default for Table<'a> {
/*#F table::Default for Table::default#*/
fn default() -> (ret: Self) 
 ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) 
{
        Self {
            static_table: STATIC_TABLE,
            dynamic_table: DynamicTable::default(),
        }
    }
/*#E#*/
}
}
pub use decoder::*;
pub use encoder::*;
use table::*;

}

} // verus!

fn main() {}
