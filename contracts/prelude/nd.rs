pub mod nd {
// ndarray (as far as used): owned arrays and views in standard layout.
use vstd::prelude::*;
use crate::base::*;
verus! {
/// a matrix by rows; `cols` matters when there is no row
pub struct Mat<T> { pub cols: int, pub rows: Seq<Seq<T>> }
pub open spec fn wf_mat<T>(m: Mat<T>) -> bool { 0 <= m.cols <= usize::MAX && m.rows.len() <= usize::MAX && forall|i: int| 0 <= i < m.rows.len() ==> (#[trigger] m.rows[i]).len() == m.cols }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Array1<T> { x: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Array2<T> { x: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ArrayView1<'a, T> { x: &'a [T] }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ArrayView2<'a, T> { x: &'a [T] }
impl<'a, T> Clone for ArrayView1<'a, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, T> Copy for ArrayView1<'a, T> { }
pub struct Axis(pub usize);
pub uninterp spec fn a1<T>(a: Array1<T>) -> Seq<T>;
pub uninterp spec fn a2<T>(a: Array2<T>) -> Mat<T>;
pub uninterp spec fn v1<'a, T>(a: ArrayView1<'a, T>) -> Seq<T>;
pub uninterp spec fn v2<'a, T>(a: ArrayView2<'a, T>) -> Mat<T>;
pub broadcast axiom fn ax_a1<T>(a: Array1<T>) ensures (#[trigger] a1(a)).len() <= usize::MAX;
pub broadcast axiom fn ax_a2<T>(a: Array2<T>) ensures wf_mat(#[trigger] a2(a));
pub broadcast axiom fn ax_v1<'a, T>(a: ArrayView1<'a, T>) ensures (#[trigger] v1(a)).len() <= usize::MAX;
pub broadcast axiom fn ax_v2<'a, T>(a: ArrayView2<'a, T>) ensures wf_mat(#[trigger] v2(a));
/// a is the row-major content of m
pub open spec fn flat_row<T>(s: Seq<T>, m: Mat<T>) -> bool { m.rows.len() == 1 && m.cols == s.len() && m.rows[0] == s }
pub open spec fn area(a: int, b: int) -> int { if a == 1 { b } else { a * b } }
/// the one shape under contract: a row
pub open spec fn one_row<T>(s: Seq<T>, a: usize, b: usize, r: Mat<T>) -> bool { a == 1 ==> flat_row(s, r) }
impl<T> Array1<T> {
    pub open spec fn view_(&self) -> Seq<T> { a1(*self) }
    #[verifier::external_body] pub fn dim(&self) -> (r: usize) ensures r == a1(*self).len() { unimplemented!() }
    #[verifier::external_body] pub fn into_shape(self, s: (usize, usize)) -> (r: Result<Array2<T>>)
        ensures r is Ok ==> area(s.0 as int, s.1 as int) == a1(self).len() && a2(r->Ok_0).rows.len() == s.0 && a2(r->Ok_0).cols == s.1 && one_row(a1(self), s.0, s.1, a2(r->Ok_0)), area(s.0 as int, s.1 as int) == a1(self).len() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn view<'a>(&'a self) -> (r: ArrayView1<'a, T>) ensures v1(r) == a1(*self) { unimplemented!() }
    #[verifier::external_body] pub fn mapv_inplace<F: Fn(T) -> T>(&mut self, f: F)
        requires forall|i: int| 0 <= i < a1(*old(self)).len() ==> call_requires(f, (#[trigger] a1(*old(self))[i],))
        ensures a1(*final(self)).len() == a1(*old(self)).len(), forall|i: int| #![trigger a1(*final(self))[i]] 0 <= i < a1(*old(self)).len() ==> call_ensures(f, (a1(*old(self))[i],), a1(*final(self))[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_index(&self, i: usize) -> (r: &T) requires i < a1(*self).len() ensures *r == a1(*self)[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == refs(a1(*self)) { unimplemented!() }
    /// arrays iterate by reference
    #[verifier::external_body] pub fn vx_into_iter<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == refs(a1(*self)) { unimplemented!() }
}
impl<'a, T> ArrayView1<'a, T> {
    #[verifier::external_body] pub fn dim(&self) -> (r: usize) ensures r == v1(*self).len() { unimplemented!() }
    #[verifier::external_body] pub fn into_shape(self, s: (usize, usize)) -> (r: Result<ArrayView2<'a, T>>)
        ensures r is Ok ==> area(s.0 as int, s.1 as int) == v1(self).len() && v2(r->Ok_0).rows.len() == s.0 && v2(r->Ok_0).cols == s.1 && one_row(v1(self), s.0, s.1, v2(r->Ok_0)), area(s.0 as int, s.1 as int) == v1(self).len() ==> r is Ok { unimplemented!() }
}
impl<T> Array2<T> {
    #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 == a2(*self).rows.len(), r.1 == a2(*self).cols { unimplemented!() }
    #[verifier::external_body] pub fn view<'a>(&'a self) -> (r: ArrayView2<'a, T>) ensures v2(r) == a2(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_shape(self, n: usize) -> (r: Result<Array1<T>>)
        ensures r is Ok ==> area(a2(self).rows.len() as int, a2(self).cols) == n && a1(r->Ok_0).len() == n && (a2(self).rows.len() == 1 ==> a1(r->Ok_0) == a2(self).rows[0]), area(a2(self).rows.len() as int, a2(self).cols) == n ==> r is Ok { unimplemented!() }
}
/// the inner product as ndarray computes it
pub uninterp spec fn fdot(a: Seq<f32>, b: Seq<f32>) -> f32;
pub open spec fn column<T>(m: Mat<T>, j: int) -> Seq<T> { Seq::new(m.rows.len(), |i: int| m.rows[i][j]) }
pub open spec fn product(a: Mat<f32>, b: Mat<f32>) -> Mat<f32> { Mat { cols: b.cols, rows: Seq::new(a.rows.len(), |i: int| Seq::new(b.cols as nat, |j: int| fdot(a.rows[i], column(b, j)))) } }
impl Array2<f32> {
    #[verifier::external_body] pub fn dot(&self, o: &Array2<f32>) -> (r: Array2<f32>) requires a2(*self).cols == a2(*o).rows.len() ensures a2(r) == product(a2(*self), a2(*o)) { unimplemented!() }
}
pub open spec fn below<T>(a: Mat<T>, b: Mat<T>) -> Mat<T> { Mat { cols: a.cols, rows: a.rows + b.rows } }
pub open spec fn beside<T>(a: Mat<T>, b: Mat<T>) -> Mat<T> { Mat { cols: a.cols + b.cols, rows: Seq::new(a.rows.len(), |i: int| a.rows[i] + b.rows[i]) } }
pub open spec fn stackable<T>(x: usize, a: Mat<T>, b: Mat<T>) -> bool { if x == 0 { a.cols == b.cols } else { x == 1 && a.rows.len() == b.rows.len() } }
pub open spec fn stacked<T>(x: usize, a: Mat<T>, b: Mat<T>) -> Mat<T> { if x == 0 { below(a, b) } else { beside(a, b) } }
/// `stack` of two; a result too large to represent is an error
#[verifier::external_body] pub fn stack<'a, T>(axis: Axis, v: &[ArrayView2<'a, T>; 2]) -> (r: Result<Array2<T>>)
    ensures r is Ok ==> stackable(axis.0, v2(v@[0]), v2(v@[1])) && a2(r->Ok_0) == stacked(axis.0, v2(v@[0]), v2(v@[1])), stackable(axis.0, v2(v@[0]), v2(v@[1])) && wf_mat(stacked(axis.0, v2(v@[0]), v2(v@[1]))) ==> r is Ok { unimplemented!() }
pub trait VxMat<T> { spec fn mat(&self) -> Mat<T>; }
impl<T> VxMat<T> for Array2<T> { open spec fn mat(&self) -> Mat<T> { a2(*self) } }
impl<'a, T> VxMat<T> for ArrayView2<'a, T> { open spec fn mat(&self) -> Mat<T> { v2(*self) } }
/// `stack![axis, a, b]`
#[verifier::external_body] pub fn vx_stack2<T, A: VxMat<T>, B: VxMat<T>>(axis: Axis, a: &A, b: &B) -> (r: Array2<T>)
    requires stackable(axis.0, a.mat(), b.mat()) ensures a2(r) == stacked(axis.0, a.mat(), b.mat()) { unimplemented!() }
/// `array![[..], ..]`
#[verifier::external_body] pub fn vx_array2<T, const M: usize, const N: usize>(x: [[T; M]; N]) -> (r: Array2<T>) ensures a2(r).cols == M, a2(r).rows.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] a2(r).rows[i] == x@[i]@ { unimplemented!() }
#[verifier::external_body] pub fn arr1<T, const N: usize>(x: &[T; N]) -> (r: Array1<T>) ensures a1(r) == x@ { unimplemented!() }
pub struct Array { }
impl Array {
    #[verifier::external_body] pub fn from_iter<T, I: VxIntoIter<T>>(v: I) -> (r: Array1<T>) ensures a1(r) == v.into_elems() { unimplemented!() }
    #[verifier::external_body] pub fn from_vec<T>(v: Vec<T>) -> (r: Array1<T>) ensures a1(r) == v@ { unimplemented!() }
    #[verifier::external_body] pub fn from_shape_fn<T, F: Fn((usize, usize)) -> T>(s: (usize, usize), f: F) -> (r: Array2<T>)
        requires forall|i: usize, j: usize| i < s.0 && j < s.1 ==> #[trigger] call_requires(f, ((i, j),))
        ensures a2(r).rows.len() == s.0, a2(r).cols == s.1, forall|i: usize, j: usize| #![trigger a2(r).rows[i as int][j as int]] i < s.0 && j < s.1 ==> call_ensures(f, ((i, j),), a2(r).rows[i as int][j as int]) { unimplemented!() }
}
pub broadcast group nd_axioms { ax_a1, ax_a2, ax_v1, ax_v2 }
}
}
