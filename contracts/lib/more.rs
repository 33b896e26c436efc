// Contracts of further library functions. Each is only part of the verifier's input when the
// extracted code calls the function (`//?` gives the form of a call); httlib-rs as pinned calls none.
//? \.or\(
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
//? \.and\(
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None });
//? \.copied\(
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
//? \.replace\(
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(v);
//? \.map_or\(
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,))
    ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
//? \.or_else\(
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](a: Option<T>, f: F) -> (r: Option<T>)
    requires a is None ==> f.requires(())
    ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
//? mem::replace\(
pub assume_specification<T>[ core::mem::replace ](a: &mut T, v: T) -> (r: T)
    ensures r == *old(a), *final(a) == v;
//? \.back\(
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::back ](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r == (if v@.len() > 0 { Some(&v@[v@.len() - 1]) } else { None });
//? \.front\(
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::front ](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None });
//? inner\.is_empty\(
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::is_empty ](v: &VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);
//? \.to_owned\(
pub assume_specification[ <[u8] as std::borrow::ToOwned>::to_owned ](s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@;
//? (u64|Self)::from\(|\.into\(
pub assume_specification[ <u64 as core::convert::From<bool>>::from ](b: bool) -> (r: u64)
    ensures r == (if b { 1u64 } else { 0u64 });
//? Vec::from\(|Vec::<u8>::from\(
pub assume_specification<'a, T: Clone>[ <Vec<T> as core::convert::From<&'a [T]>>::from ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]), (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> r@ =~= s@;
//? \.v_extend\(
pub trait VExtSrc<T> { spec fn items(&self) -> Seq<T>; fn put_(self, v: &mut Vec<T>) ensures final(v)@ == old(v)@ + self.items(); }
impl<T> VExtSrc<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn put_(self, v: &mut Vec<T>) { v.extend(self) } }
impl<'a, T: Copy> VExtSrc<T> for &'a [T] { open spec fn items(&self) -> Seq<T> { (*self)@ }
    #[verifier::external_body] fn put_(self, v: &mut Vec<T>) { v.extend(self) } }
impl<'a, T: Copy> VExtSrc<T> for &'a Vec<T> { open spec fn items(&self) -> Seq<T> { (*self)@ }
    #[verifier::external_body] fn put_(self, v: &mut Vec<T>) { v.extend(self) } }
pub trait VExtend<T> {
    spec fn eseq(&self) -> Seq<T>;
    fn v_extend<S: VExtSrc<T>>(&mut self, s: S)
        ensures final(self).eseq() == old(self).eseq() + s.items();
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn eseq(&self) -> Seq<T> { self@ }
    fn v_extend<S: VExtSrc<T>>(&mut self, s: S) { s.put_(self) }
}
//? \.is_negative\(
pub assume_specification[ i32::is_negative ](x: i32) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i64::is_negative ](x: i64) -> (r: bool)
    ensures r == (x < 0);
//? \.unwrap_or_default\(
pub assume_specification<T: Default, E>[ Result::<T, E>::unwrap_or_default ](x: Result<T, E>) -> (r: T)
    ensures x is Ok ==> r == x->Ok_0, x is Err ==> call_ensures(T::default, (), r);
//? \.v_extend_from_slice\(
pub trait VExtendSlice<T> {
    spec fn sseq(&self) -> Seq<T>;
    fn v_extend_from_slice(&mut self, s: &[T])
        ensures final(self).sseq() == old(self).sseq() + s@;
}
impl<T: Copy> VExtendSlice<T> for Vec<T> {
    open spec fn sseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend_from_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
}
