// Trusted contracts of the standard library (and of the language) that the
// extracted code relies on. Everything in this file is assumed, not proved;
// the check lists every item of it in its evidence.
pub mod trust {
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::convert::*;
#[allow(unused_imports)] use vstd::std_specs::ops::*;
use core::ops::{Range, RangeTo};
use std::collections::VecDeque;

verus! {

// `x?` converts the error with From::from.
pub broadcast axiom fn axiom_question_mark<S: From<T>, T>(value: T, ret: S)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(value, ret)
    ensures call_ensures(<S as From<T>>::from, (value,), ret);

// impl<T> From<T> for T is the identity.
pub axiom fn axiom_from_self<T>()
    ensures <T as FromSpec<T>>::obeys_from_spec(), forall|v: T| #[trigger] <T as FromSpec<T>>::from_spec(v) == v;

// `x -= &y` on octets is `x -= y`.
pub broadcast axiom fn axiom_sub_assign_obeys<T>() where u8: SubAssignSpec<T>
    ensures #[trigger] <u8 as SubAssignSpec<T>>::obeys_sub_assign_spec();
pub broadcast axiom fn axiom_sub_assign_ref(a: u8, b: &u8)
    ensures
        #![trigger <u8 as SubAssignSpec<&u8>>::sub_assign_req(&a, b)] #![trigger <u8 as SubAssignSpec<&u8>>::sub_assign_spec(&a, b)]
        <u8 as SubAssignSpec<&u8>>::sub_assign_req(&a, b) == (a >= *b),
        <u8 as SubAssignSpec<&u8>>::sub_assign_spec(&a, b) == (a - *b) as u8;

// Both follow from axiom_vec_memory below.
pub broadcast proof fn lemma_vec_u8_len(v: Vec<u8>)
    ensures #[trigger] v@.len() <= isize::MAX
{ axiom_vec_memory(v); }
pub broadcast proof fn lemma_vec_short(v: Vec<u8>)
    ensures #[trigger] v@.len() < 0x1000_0000_0000_0000
{ axiom_vec_memory(v); }

// A clone of an entry of a flattened table is that entry.
pub broadcast axiom fn axiom_cloned_entry(a: (Option<u8>, Option<u16>, u8), b: (Option<u8>, Option<u16>, u8))
    ensures #[trigger] cloned(a, b) ==> a == b;

pub assume_specification[ u32::pow ](b: u32, e: u32) -> (r: u32)
    requires vstd::arithmetic::power::pow(b as int, e as nat) <= u32::MAX
    ensures r as int == vstd::arithmetic::power::pow(b as int, e as nat);
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, default: T) -> (x: T)
    ensures x == (match r { Ok(v) => v, Err(_) => default });

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

// `f` is `o` followed by some prefix of `bytes`.
#[verifier::opaque]
pub open spec fn partial(o: Seq<u8>, f: Seq<u8>, bytes: Seq<u8>) -> bool {
    exists|k: int| 0 <= k <= bytes.len() && f == o + #[trigger] bytes.take(k)
}

pub mod io {
    use vstd::prelude::*;
    pub use std::io::Error;
    // std::io::Write, as far as write_all: Ok means that all of `data` was
    // appended to the sink, Err that some prefix of it was.
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn reliable(&self) -> bool;
        fn write_all(&mut self, data: &[u8]) -> (r: Result<(), Error>)
            ensures
                r is Ok ==> final(self).out() == old(self).out() + data@,
                r is Err ==> super::partial(old(self).out(), final(self).out(), data@),
                old(self).reliable() ==> r is Ok,
                final(self).reliable() == old(self).reliable();
    }
    // Writing to a Vec<u8> appends and never fails.
    impl Write for Vec<u8> {
        open spec fn out(&self) -> Seq<u8> { self@ }
        open spec fn reliable(&self) -> bool { true }
        #[verifier::external_body]
        fn write_all(&mut self, data: &[u8]) -> (r: Result<(), Error>) { std::io::Write::write_all(self, data) }
    }
}

// v.drain(range); as a statement: removes that range.
pub trait VRange {
    spec fn lo(&self) -> int;
    spec fn hi(&self) -> int;
}
impl VRange for Range<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self) -> int { self.end as int }
}
impl VRange for RangeTo<usize> {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self) -> int { self.end as int }
}
pub trait VecExt<T> {
    spec fn vseq(&self) -> Seq<T>;
    spec fn vcap(&self) -> nat;
    fn v_drain<R: VRange + core::ops::RangeBounds<usize>>(&mut self, r: R)
        requires 0 <= r.lo() <= r.hi() <= old(self).vseq().len()
        ensures final(self).vseq() == old(self).vseq().take(r.lo()) + old(self).vseq().skip(r.hi());
    fn v_capacity(&self) -> (n: usize)
        ensures n == self.vcap(), n >= self.vseq().len();
}
pub uninterp spec fn vec_capacity<T>(v: Vec<T>) -> nat;
impl<T> VecExt<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    open spec fn vcap(&self) -> nat { vec_capacity(*self) }
    #[verifier::external_body]
    fn v_drain<R: VRange + core::ops::RangeBounds<usize>>(&mut self, r: R) { self.drain(r); }
    #[verifier::external_body]
    fn v_capacity(&self) -> (n: usize) { self.capacity() }
}
// A fresh vector of a (non zero sized) type has exactly the capacity asked for.
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (v: Vec<T>)
    requires affordable(n as int)
    ensures v@.len() == 0, vec_capacity(v) == n
{ Vec::with_capacity(n) }

// Memory that is asked for has to be bounded: by a constant, or by the length of something that is in
// memory already. What is asked for beyond that may abort.
pub uninterp spec fn in_memory(n: int) -> bool;
pub open spec fn affordable(n: int) -> bool { exists|m: int| #[trigger] in_memory(m) && n <= 64 * m + 0x7fff_ffff }
#[verifier::external_body]
pub broadcast proof fn axiom_literal_memory(n: usize)
    ensures #![trigger affordable(n as int)] in_memory(0)
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_memory<T>(v: Vec<T>)
    ensures #![trigger v@.len()] in_memory(v@.len() as int), v@.len() <= 0x1_0000_0000_0000
{}
#[verifier::external_body]
pub broadcast proof fn axiom_slice_memory<T>(v: &[T])
    ensures #![trigger v@.len()] in_memory(v@.len() as int), v@.len() <= 0x1_0000_0000_0000
{}
pub broadcast group group_memory { axiom_literal_memory, axiom_vec_memory, axiom_slice_memory }
pub fn vec_of<T: Clone>(e: T, n: usize) -> (v: Vec<T>)
    requires affordable(n as int)
    ensures v@.len() == n, forall|i: int| 0 <= i < n ==> cloned::<T>(e, #[trigger] v@[i])
{ vec![e; n] }
pub trait VecMore<T> {
    spec fn mseq(&self) -> Seq<T>;
    fn v_reserve(&mut self, n: usize)
        requires affordable(n as int)
        ensures final(self).mseq() == old(self).mseq();
    fn v_resize(&mut self, n: usize, e: T) where T: Clone
        requires affordable(n as int)
        ensures final(self).mseq().len() == n,
            n <= old(self).mseq().len() ==> final(self).mseq() == old(self).mseq().take(n as int),
            forall|i: int| 0 <= i < n && i < old(self).mseq().len() ==> #[trigger] final(self).mseq()[i] == old(self).mseq()[i],
            forall|i: int| old(self).mseq().len() <= i < n ==> cloned::<T>(e, #[trigger] final(self).mseq()[i]);
}
impl<T> VecMore<T> for Vec<T> {
    open spec fn mseq(&self) -> Seq<T> { self@ }
    fn v_reserve(&mut self, n: usize) { self.reserve(n); }
    fn v_resize(&mut self, n: usize, e: T) where T: Clone { self.resize(n, e); }
}

// (a as f64 / b as f64).ceil() as usize
#[verifier::external_body]
pub fn ceil_div(a: usize, b: usize) -> (r: usize)
    requires b > 0, a < 4096, b < 64
    ensures r as int == (a as int + b as int - 1) / (b as int)
{ (a as f64 / b as f64).ceil() as usize }

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger s@[i]] #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]), s@ =~= r@ ==> s@ == r@;
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](d: &mut [T], s: &[T])
    requires old(d)@.len() == s@.len()
    ensures final(d)@.len() == s@.len(), forall|i: int| #![trigger s@[i]] #![trigger final(d)@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], final(d)@[i]);
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::get ](v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None });

// ---- text (as far as the parser of the code table goes)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub open spec fn str_bytes(s: &str) -> Seq<u8> { vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) }
pub open spec fn all_ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 }
pub open spec fn white(b: u8) -> bool { b == 32 || 9 <= b <= 13 }
pub open spec fn trim_start(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b[0]) { trim_start(b.skip(1)) } else { b } }
pub open spec fn trim_end(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b.last()) { trim_end(b.drop_last()) } else { b } }
// text[range]
pub assume_specification<I: core::slice::SliceIndex<str>> [ <str as core::ops::Index<I>>::index ] (s: &str, i: I) -> (r: &<I as core::slice::SliceIndex<str>>::Output)
    ensures vstd::slice::SliceIndexSpec::index_postcondition(&i, s, r);
// str::trim, of ASCII text
pub assume_specification [str::trim] (s: &str) -> (r: &str)
    ensures all_ascii(str_bytes(s)) ==> str_bytes(r) == trim_end(trim_start(str_bytes(s)));
pub open spec fn hex_digit(b: u8) -> Option<int> { if 48 <= b <= 57 { Some(b - 48) } else if 97 <= b <= 102 { Some(b - 87) } else if 65 <= b <= 70 { Some(b - 55) } else { None } }
pub open spec fn hex(b: Seq<u8>) -> Option<int> decreases b.len() {
    if b.len() == 0 { None } else { match hex_digit(b.last()) { None => None, Some(d) => if b.len() == 1 { Some(d) } else { match hex(b.drop_last()) { Some(h) => Some(16 * h + d), None => None } } } }
}
// u32::from_str_radix(s, 16)
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires radix == 16
    ensures match hex(str_bytes(s)) { Some(v) => if v <= u32::MAX { r == Ok::<u32, std::num::ParseIntError>(v as u32) } else { r is Err }, None => true };
// str::lines
pub open spec fn line_end(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 || b[0] == 10 { 0 } else { 1 + line_end(b.skip(1)) } }
pub open spec fn no_cr(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 13 { b.drop_last() } else { b } }
pub open spec fn lines_of(b: Seq<u8>) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else if line_end(b) >= b.len() || line_end(b) < 0 { seq![b] } else { seq![no_cr(b.take(line_end(b)))] + lines_of(b.skip(line_end(b) + 1)) }
}
pub trait StrExt {
    spec fn text(&self) -> Seq<u8>;
    fn v_lines<'a>(&'a self) -> (r: Vec<&'a str>)
        ensures r@.len() == lines_of(self.text()).len(), forall|i: int| 0 <= i < r@.len() ==> str_bytes(#[trigger] r@[i]) == lines_of(self.text())[i];
}
impl StrExt for str {
    open spec fn text(&self) -> Seq<u8> { str_bytes(self) }
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: Vec<&'a str>) { self.lines().collect() }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
// A string is exactly the characters of its valid UTF-8.
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r {
        Ok(s) => vstd::utf8::valid_utf8(v@) && s@ == vstd::utf8::decode_utf8(v@),
        Err(_) => !vstd::utf8::valid_utf8(v@),
    };

// Little-endian bytes of fixed-width numbers.
pub open spec fn le4(v: u32) -> Seq<u8> {
    seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]
}
pub open spec fn le8(v: u64) -> Seq<u8> {
    seq![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8, (v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8]
}
pub open spec fn un4(b: Seq<u8>) -> u32 {
    (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)
}
pub open spec fn un8(b: Seq<u8>) -> u64 {
    (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24) | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)
}
// The bit patterns of floating-point numbers (uninterpreted) and back.
pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f64_bits(v: f64) -> u64;

pub trait LeBytes<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    spec fn is_le(self, b: Seq<u8>) -> bool;
    fn v_to_le_bytes(self) -> (r: [u8; N])
        ensures r@ == self.le();
    fn v_from_le_bytes(b: [u8; N]) -> (r: Self)
        ensures r.is_le(b@);
}
impl LeBytes<4> for u32 {
    open spec fn le(self) -> Seq<u8> { le4(self) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un4(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { u32::from_le_bytes(b) }
}
impl LeBytes<4> for i32 {
    open spec fn le(self) -> Seq<u8> { le4(self as u32) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un4(b) as i32 }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { i32::from_le_bytes(b) }
}
impl LeBytes<4> for f32 {
    open spec fn le(self) -> Seq<u8> { le4(f32_bits(self)) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { f32_bits(self) == un4(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 4]) -> (r: Self) { f32::from_le_bytes(b) }
}
impl LeBytes<8> for u64 {
    open spec fn le(self) -> Seq<u8> { le8(self) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un8(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { u64::from_le_bytes(b) }
}
impl LeBytes<8> for i64 {
    open spec fn le(self) -> Seq<u8> { le8(self as u64) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { self == un8(b) as i64 }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { i64::from_le_bytes(b) }
}
impl LeBytes<8> for f64 {
    open spec fn le(self) -> Seq<u8> { le8(f64_bits(self)) }
    open spec fn is_le(self, b: Seq<u8>) -> bool { f64_bits(self) == un8(b) }
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn v_from_le_bytes(b: [u8; 8]) -> (r: Self) { f64::from_le_bytes(b) }
}

// ---- pieces of sequences (proved): in scope of the functions that differ from the annotated copy
pub broadcast proof fn lemma_piece_of_piece<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_piece_all<T>(s: Seq<T>, b: int)
    requires b == s.len()
    ensures #[trigger] s.subrange(0, b) == s
{ assert(s.subrange(0, b) =~= s); }
pub broadcast proof fn lemma_after_nothing<T>(s: Seq<T>)
    ensures #[trigger] (Seq::<T>::empty() + s) == s
{ assert(Seq::<T>::empty() + s =~= s); }
pub broadcast proof fn lemma_then_nothing<T>(s: Seq<T>)
    ensures #[trigger] (s + Seq::<T>::empty()) == s
{ assert(s + Seq::<T>::empty() =~= s); }
pub broadcast group group_pieces { lemma_piece_of_piece, lemma_piece_all, lemma_after_nothing, lemma_then_nothing }

} // verus!
}
