// Trusted prelude: the float type, panics, iterators and standard-library contracts.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_unsafe, unused_must_use, unused_parens, unused_braces, non_snake_case)]
#![verifier::exec_allows_no_decreases_clause]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
pub mod rt {
use super::*;

// ---- floating point: a Float stands for a finite f64; comparisons are those of its real value
#[derive(Debug, Clone, Copy)]
#[verifier::external_body]
pub struct Float { f: f64 }

pub open spec fn rcmp(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

impl Float {
    pub uninterp spec fn r(self) -> real;
    #[verifier::external_body]
    pub fn lit(g: Ghost<real>) -> (r: Float) ensures r.r() == g@ { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Float) -> (r: Float) ensures r.r() == (if self.r() >= o.r() { self.r() } else { o.r() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Float) -> (r: Float) ensures r.r() == (if self.r() <= o.r() { self.r() } else { o.r() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn partial_cmp(&self, o: &Float) -> (r: Option<Ordering>) ensures r == Some(rcmp(self.r(), o.r())) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Float) ensures r.r() == (if self.r() >= 0real { self.r() } else { -self.r() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_up(self) -> (r: Float) ensures r.r() > self.r() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_down(self) -> (r: Float) ensures r.r() < self.r() { unimplemented!() }
    pub uninterp spec fn max_r() -> real;
    #[verifier::external_body]
    pub fn rt_min() -> (r: Float) ensures r.r() == -Float::max_r() { unimplemented!() }
    #[verifier::external_body]
    pub fn rt_max() -> (r: Float) ensures r.r() == Float::max_r() { unimplemented!() }
}
#[verifier::external_body]
pub proof fn ax_float_range(f: Float) ensures -Float::max_r() <= f.r() <= Float::max_r() { unimplemented!() }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Float {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Float) -> bool { self.r() == o.r() }
}
impl PartialEq for Float { #[verifier::external_body] fn eq(&self, o: &Float) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Float {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Float) -> Option<Ordering> { Some(rcmp(self.r(), o.r())) }
}
impl PartialOrd for Float { #[verifier::external_body] fn partial_cmp(&self, o: &Float) -> Option<Ordering> { unimplemented!() } }
// rounding: only monotonicity facts that hold for every rounding mode are assumed
pub open spec fn sub_ok(a: real, b: real, r: real) -> bool { (b >= 0real ==> r <= a) && (b <= 0real ==> r >= a) && (a >= b ==> r >= 0real) && (a <= b ==> r <= 0real) }
pub open spec fn add_ok(a: real, b: real, r: real) -> bool { (b >= 0real ==> r >= a) && (b <= 0real ==> r <= a) }
pub open spec fn mul_ok(a: real, b: real, r: real) -> bool { (a >= 0real && b >= 0real ==> r >= 0real) && (a <= 0real && b >= 0real ==> r <= 0real) }
pub uninterp spec fn fl_sub(a: Float, b: Float) -> Float;
pub uninterp spec fn fl_add(a: Float, b: Float) -> Float;
pub uninterp spec fn fl_mul(a: Float, b: Float) -> Float;
pub uninterp spec fn fl_div(a: Float, b: Float) -> Float;
pub uninterp spec fn fl_neg(a: Float) -> Float;
pub mod flax { use super::*;
pub broadcast axiom fn ax_sub(a: Float, b: Float) ensures (#[trigger] fl_sub(a, b)).r() == fsub(a.r(), b.r()), sub_ok(a.r(), b.r(), fsub(a.r(), b.r()));
pub broadcast axiom fn ax_add(a: Float, b: Float) ensures (#[trigger] fl_add(a, b)).r() == fadd(a.r(), b.r()), add_ok(a.r(), b.r(), fadd(a.r(), b.r()));
pub broadcast axiom fn ax_mul(a: Float, b: Float) ensures (#[trigger] fl_mul(a, b)).r() == fmul(a.r(), b.r()), mul_ok(a.r(), b.r(), fmul(a.r(), b.r()));
pub broadcast axiom fn ax_neg(a: Float) ensures (#[trigger] fl_neg(a)).r() == -a.r();
}
pub uninterp spec fn fsub(a: real, b: real) -> real;
pub uninterp spec fn fadd(a: real, b: real) -> real;
pub uninterp spec fn fmul(a: real, b: real) -> real;
impl vstd::std_specs::ops::SubSpecImpl for Float { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Float) -> bool { true } open spec fn sub_spec(self, o: Float) -> Float { fl_sub(self, o) } }
impl std::ops::Sub for Float { type Output = Float; #[verifier::external_body] fn sub(self, o: Float) -> Float { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for Float { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Float) -> bool { true } open spec fn add_spec(self, o: Float) -> Float { fl_add(self, o) } }
impl std::ops::Add for Float { type Output = Float; #[verifier::external_body] fn add(self, o: Float) -> Float { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for Float { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Float) -> bool { true } open spec fn mul_spec(self, o: Float) -> Float { fl_mul(self, o) } }
impl std::ops::Mul for Float { type Output = Float; #[verifier::external_body] fn mul(self, o: Float) -> Float { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for Float { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Float) -> bool { true } open spec fn div_spec(self, o: Float) -> Float { fl_div(self, o) } }
impl std::ops::Div for Float { type Output = Float; #[verifier::external_body] fn div(self, o: Float) -> Float { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for Float { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Float { fl_neg(self) } }
impl std::ops::Neg for Float { type Output = Float; #[verifier::external_body] fn neg(self) -> Float { unimplemented!() } }

// ---- panics: a panic ends the run (partial correctness)
#[verifier::external_body]
pub fn rt_panic() -> !
    ensures false
{ panic!() }
pub fn rt_assert(b: bool) ensures b { if !b { rt_panic() } }

pub trait RtUnwrap<T> {
    spec fn is_good(&self, t: T) -> bool;
    fn rt_unwrap(self) -> (r: T) ensures self.is_good(r);
}
impl<T> RtUnwrap<T> for Option<T> {
    open spec fn is_good(&self, t: T) -> bool { *self == Some(t) }
    fn rt_unwrap(self) -> (r: T) { match self { Some(t) => t, None => rt_panic() } }
}
impl<T, E> RtUnwrap<T> for Result<T, E> {
    open spec fn is_good(&self, t: T) -> bool { *self == Result::<T, E>::Ok(t) }
    fn rt_unwrap(self) -> (r: T) { match self { Ok(t) => t, Err(_) => rt_panic() } }
}

// ---- unchecked indexing: in bounds is an obligation
pub trait RtUnchecked<T> {
    spec fn sq(&self) -> Seq<T>;
    fn get_unchecked(&self, i: usize) -> (r: &T) requires i < self.sq().len() /*[C04]*/ ensures *r == self.sq()[i as int];
    fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).sq().len() /*[C04]*/
        ensures *r == old(self).sq()[i as int], final(self).sq() == old(self).sq().update(i as int, *final(r));
}
impl<T> RtUnchecked<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
    fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

// ---- a vector lent out element by element through its raw pointer: every index in bounds and handed out
// once, so that no two references alias.  fin() is the vector when all of the loans have ended
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RtSlots<'a, T> { p: &'a mut Vec<T> }
impl<'a, T> RtSlots<'a, T> {
    pub uninterp spec fn cur(&self) -> Seq<T>;
    pub uninterp spec fn fin(&self) -> Seq<T>;
    pub uninterp spec fn out(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn take(&mut self, i: usize) -> (r: &'a mut T)
        requires i < old(self).cur().len(), !old(self).out().contains(i as int), // [C04]
        ensures final(self).cur() == old(self).cur(), final(self).fin() == old(self).fin(), final(self).out() == old(self).out().insert(i as int),
            *r == old(self).cur()[i as int], *final(r) == old(self).fin()[i as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self)
        ensures self.fin().len() == self.cur().len(), forall|j: int| 0 <= j < self.cur().len() && !self.out().contains(j) ==> #[trigger] self.fin()[j] == self.cur()[j]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn rt_slots<'a, T>(v: &'a mut Vec<T>) -> (s: RtSlots<'a, T>)
    ensures s.cur() == old(v)@, s.fin() == final(v)@, s.out() == Set::<int>::empty()
{ unimplemented!() }

// ---- eager iterators
pub struct RtIter<T> { pub v: Vec<T>, pub pos: usize }
impl<T> RtIter<T> {
    pub open spec fn rest(&self) -> Seq<T> { self.v@.subrange(self.pos as int, self.v@.len() as int) }
    pub open spec fn ok(&self) -> bool { self.pos <= self.v@.len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).v@ == old(self).v@,
            old(self).pos < old(self).v@.len() ==> r == Some(old(self).v@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).v@.len() ==> r is None && final(self).pos == old(self).pos,
    { unimplemented!() }
}
pub fn rt_from_vec<T>(v: Vec<T>) -> (r: RtIter<T>) ensures r.v@ == v@, r.pos == 0 { RtIter { v, pos: 0 } }
pub trait RtIntoIter: Sized {
    type It;
    spec fn it_ok(self, it: Self::It) -> bool;
    fn rt_into(self) -> (r: Self::It) ensures self.it_ok(r);
}
impl<T> RtIntoIter for Vec<T> {
    type It = RtIter<T>;
    open spec fn it_ok(self, it: RtIter<T>) -> bool { it.v@ == self@ && it.pos == 0 }
    fn rt_into(self) -> (r: RtIter<T>) { rt_from_vec(self) }
}
impl<T> RtIntoIter for RtIter<T> {
    type It = RtIter<T>;
    open spec fn it_ok(self, it: RtIter<T>) -> bool { it == self }
    fn rt_into(self) -> (r: RtIter<T>) { self }
}
pub fn rt_iter<I: RtIntoIter>(i: I) -> (r: I::It) ensures i.it_ok(r) { i.rt_into() }

// ---- std functions
pub assume_specification<T: Default>[std::mem::take](d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T>[std::mem::replace](d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;

pub trait RtExtend<S>: Sized { 
    spec fn ext(&self, s: S, n: Self) -> bool;
    fn rt_extend(&mut self, s: S) ensures old(self).ext(s, *final(self));
}
impl<T> RtExtend<Vec<T>> for Vec<T> {
    open spec fn ext(&self, s: Vec<T>, n: Vec<T>) -> bool { n@ == self@ + s@ }
    fn rt_extend(&mut self, s: Vec<T>) { let mut s = s; self.append(&mut s); }
}
impl<T, const N: usize> RtExtend<[T; N]> for Vec<T> {
    open spec fn ext(&self, s: [T; N], n: Vec<T>) -> bool { n@ == self@ + s@ }
    #[verifier::external_body]
    fn rt_extend(&mut self, s: [T; N]) { unimplemented!() }
}
pub trait RtVec<T> {
    fn rt_drain(&mut self) -> (r: RtIter<T>);
}
impl<T> RtVec<T> for Vec<T> {
    fn rt_drain(&mut self) -> (r: RtIter<T>) ensures r.v@ == old(self)@, r.pos == 0, final(self)@.len() == 0 { rt_from_vec(std::mem::replace(self, Vec::new())) }
}


#[verifier::external_body]
pub fn rt_cap() -> usize { 0 }

// ---- sorting and searching
pub open spec fn ordering_rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn cmp_total<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, f: F) -> bool {
    &&& forall|i: int, j: int, o1: Ordering, o2: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] f.ensures((&s[i], &s[j]), o1) && #[trigger] f.ensures((&s[j], &s[i]), o2) ==> o1 == ordering_rev(o2)
    &&& forall|i: int, j: int, k: int, o1: Ordering, o2: Ordering, o3: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && i != j && j != k && i != k
        && #[trigger] f.ensures((&s[i], &s[j]), o1) && #[trigger] f.ensures((&s[j], &s[k]), o2) && #[trigger] f.ensures((&s[i], &s[k]), o3) && o1 != Ordering::Greater && o2 != Ordering::Greater ==> o3 != Ordering::Greater
}
/// `p` lists the positions of the old elements in their new order
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j])
}
pub trait RtSort<T>: Sized {
    spec fn sv(&self) -> Seq<T>;
    fn rt_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) -> (p: Ghost<Seq<int>>)
        requires forall|a: &T, b: &T| f.requires((a, b))
        ensures is_perm(p@, old(self).sv().len() as int), final(self).sv().len() == old(self).sv().len(),
            forall|i: int| 0 <= i < p@.len() ==> #[trigger] final(self).sv()[i] == old(self).sv()[p@[i]],
            cmp_total(old(self).sv(), f) ==> forall|i: int, j: int| #![trigger final(self).sv()[i], final(self).sv()[j]] 0 <= i < j < p@.len() ==> exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&final(self).sv()[i], &final(self).sv()[j]), o);
    fn rt_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) -> (p: Ghost<Seq<int>>)
        requires forall|a: &T| f.requires((a,)), K::obeys_cmp_spec()
        ensures is_perm(p@, old(self).sv().len() as int), final(self).sv().len() == old(self).sv().len(),
            forall|i: int| 0 <= i < p@.len() ==> #[trigger] final(self).sv()[i] == old(self).sv()[p@[i]],
            forall|i: int, j: int| #![trigger final(self).sv()[i], final(self).sv()[j]] 0 <= i < j < p@.len() ==> exists|a: K, b: K| f.ensures((&final(self).sv()[i],), a) && f.ensures((&final(self).sv()[j],), b) && #[trigger] a.cmp_spec(&b) != Ordering::Greater;
}
impl<T> RtSort<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn rt_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) -> (p: Ghost<Seq<int>>) { unimplemented!() }
    #[verifier::external_body]
    fn rt_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) -> (p: Ghost<Seq<int>>) { unimplemented!() }
}
pub trait RtSearch<T> {
    spec fn qv(&self) -> Seq<T>;
    /// the slice is sorted by strictly ascending keys
    fn rt_binary_search_by_key<K: Ord, F: Fn(&T) -> K>(&self, key: &K, f: F) -> (r: Result<usize, usize>)
        requires forall|a: &T| f.requires((a,)), K::obeys_cmp_spec(),
            forall|i: int, j: int, a: K, b: K| 0 <= i < j < self.qv().len() && #[trigger] f.ensures((&self.qv()[i],), a) && #[trigger] f.ensures((&self.qv()[j],), b) ==> a.cmp_spec(&b) == Ordering::Less
        ensures
            r matches Ok(i) ==> i < self.qv().len() && exists|a: K| f.ensures((&self.qv()[i as int],), a) && #[trigger] a.cmp_spec(key) == Ordering::Equal,
            r matches Err(i) ==> i <= self.qv().len()
                && (forall|j: int| #![trigger self.qv()[j]] 0 <= j < i ==> exists|a: K| f.ensures((&self.qv()[j],), a) && #[trigger] a.cmp_spec(key) == Ordering::Less)
                && (forall|j: int| #![trigger self.qv()[j]] i <= j < self.qv().len() ==> exists|a: K| f.ensures((&self.qv()[j],), a) && #[trigger] a.cmp_spec(key) == Ordering::Greater);
}
impl<T> RtSearch<T> for Vec<T> {
    open spec fn qv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn rt_binary_search_by_key<K: Ord, F: Fn(&T) -> K>(&self, key: &K, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
impl<T> RtSearch<T> for [T] {
    open spec fn qv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn rt_binary_search_by_key<K: Ord, F: Fn(&T) -> K>(&self, key: &K, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}
pub trait RtRange<T> { spec fn rv(&self) -> Seq<T>; fn whole(&self) -> (r: &[T]) ensures r@ == self.rv(); }
impl<T> RtRange<T> for Vec<T> { open spec fn rv(&self) -> Seq<T> { self@ } fn whole(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> RtRange<T> for [T] { open spec fn rv(&self) -> Seq<T> { self@ } fn whole(&self) -> (r: &[T]) { self } }
impl<'a, T> RtRange<T> for &'a [T] { open spec fn rv(&self) -> Seq<T> { (*self)@ } fn whole(&self) -> (r: &[T]) { *self } }
pub fn rt_range<T, S: RtRange<T>>(s: &S, a: usize, b: usize) -> (r: &[T]) ensures a <= b <= s.rv().len(), r@ == s.rv().subrange(a as int, b as int), forall|j: int| #![trigger s.rv()[j]] a <= j < b ==> s.rv()[j] == r@[j - a]
{ let w = s.whole(); if !(a <= b && b <= w.len()) { rt_panic() } vstd::slice::slice_subrange(w, a, b) }
pub fn rt_range_from<T, S: RtRange<T>>(s: &S, a: usize) -> (r: &[T]) ensures a <= s.rv().len(), r@ == s.rv().subrange(a as int, s.rv().len() as int), forall|j: int| #![trigger s.rv()[j]] a <= j < s.rv().len() ==> s.rv()[j] == r@[j - a]
{ let w = s.whole(); if !(a <= w.len()) { rt_panic() } vstd::slice::slice_subrange(w, a, w.len()) }

// ---- the robust crate: exact signs (trusted)
pub mod robust {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Coord { pub x: Float, pub y: Float }
    impl Coord { pub open spec fn v(self) -> R2 { (self.x.r(), self.y.r()) } }
    pub open spec fn same_sign(a: real, b: real) -> bool { (a > 0real <==> b > 0real) && (a < 0real <==> b < 0real) }
    #[verifier::external_body]
    pub fn orient2d(a: Coord, b: Coord, c: Coord) -> (r: Float) ensures same_sign(r.r(), orient(a.v(), b.v(), c.v())) { unimplemented!() }
    #[verifier::external_body]
    pub fn incircle(a: Coord, b: Coord, c: Coord, d: Coord) -> (r: Float) ensures same_sign(r.r(), incirc(a.v(), b.v(), c.v(), d.v())) { unimplemented!() }
}
