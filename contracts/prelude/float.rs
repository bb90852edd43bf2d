pub mod float {
// f32 comparison: non-NaN values are totally preordered (fkey is the position in that order; -0 and 0 share it).
// Arithmetic: uninterpreted operations, about which only the IEEE facts stated below are assumed.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::base::*;
verus! {
pub uninterp spec fn nan(x: f32) -> bool;
pub uninterp spec fn fkey(x: f32) -> int;
pub broadcast axiom fn ax_f32_obeys() ensures #[trigger] <f32 as PartialOrdSpec<f32>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f32_cmp(a: f32, b: f32) ensures !nan(a) && !nan(b) ==> #[trigger] a.partial_cmp_spec(&b) == Some(if fkey(a) < fkey(b) { Ordering::Less } else if fkey(a) == fkey(b) { Ordering::Equal } else { Ordering::Greater });
pub broadcast axiom fn ax_f32_lits() ensures #![trigger nan(0.0f32)] #![trigger fkey(0.0f32)] !nan(0.0f32);
pub broadcast axiom fn ax_f32_half() ensures #![trigger nan(0.5f32)] #![trigger fkey(0.5f32)] !nan(0.5f32);
pub broadcast axiom fn ax_f32_one() ensures #![trigger nan(1.0f32)] #![trigger fkey(1.0f32)] !nan(1.0f32);
pub broadcast axiom fn ax_f32_nan(a: f32, b: f32) ensures nan(a) || nan(b) ==> #[trigger] a.partial_cmp_spec(&b) is None;
pub broadcast axiom fn ax_f32_one_pos() ensures #![trigger fkey(1.0f32)] fkey(1.0f32) > fkey(0.0f32);
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fneg(a: f32) -> f32;
/// a number or a reference to one
pub trait VxF: Sized { spec fn fv(self) -> f32; }
impl VxF for f32 { open spec fn fv(self) -> f32 { self } }
impl<'a> VxF for &'a f32 { open spec fn fv(self) -> f32 { *self } }
pub uninterp spec fn fsqrt(a: f32) -> f32;
pub trait VxSqrt: Sized { spec fn sqv(self) -> f32; fn vx_sqrt(self) -> (r: f32) ensures r == fsqrt(self.sqv()); }
impl VxSqrt for f32 { open spec fn sqv(self) -> f32 { self } #[verifier::external_body] fn vx_sqrt(self) -> (r: f32) { unimplemented!() } }
// zero divided by a positive number is zero
pub broadcast axiom fn ax_zero_div(b: f32) ensures fpos(b) ==> #[trigger] fdiv(0.0f32, b) == 0.0f32;
pub uninterp spec fn fexp(a: f32) -> f32;
pub trait VxExp: Sized { spec fn exv(self) -> f32; fn vx_exp(self) -> (r: f32) ensures r == fexp(self.exv()); }
impl VxExp for f32 { open spec fn exv(self) -> f32 { self } #[verifier::external_body] fn vx_exp(self) -> (r: f32) { unimplemented!() } }
/// `n as f32`
pub uninterp spec fn fint(n: int) -> f32;
/// `Iterator::sum`
pub uninterp spec fn fsum(s: Seq<f32>) -> f32;
/// neither infinite nor NaN
pub uninterp spec fn fin(x: f32) -> bool;
pub open spec fn fpos(x: f32) -> bool { !nan(x) && fkey(x) > fkey(0.0f32) }
#[verifier::external_body] pub fn vx_add<A: VxF, B: VxF>(a: A, b: B) -> (r: f32) ensures r == fadd(a.fv(), b.fv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_sub<A: VxF, B: VxF>(a: A, b: B) -> (r: f32) ensures r == fsub(a.fv(), b.fv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_mul<A: VxF, B: VxF>(a: A, b: B) -> (r: f32) ensures r == fmul(a.fv(), b.fv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_div<A: VxF, B: VxF>(a: A, b: B) -> (r: f32) ensures r == fdiv(a.fv(), b.fv()) { unimplemented!() }
#[verifier::external_body] pub fn vx_neg(a: f32) -> (r: f32) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_as_f32(n: usize) -> (r: f32) ensures r == fint(n as int) { unimplemented!() }
impl<'a> It<&'a f32> { #[verifier::external_body] pub fn vx_sum(self) -> (r: f32) ensures r == fsum(unrefs(self@)) { unimplemented!() } }
/// 1/(1+n)
pub open spec fn inv_count(n: int) -> f32 { fdiv(1.0f32, fadd(1.0f32, fint(n))) }
// 1/(1+n) lies in [2^-64, 1] for n <= usize::MAX, and rounding is monotone
pub broadcast axiom fn ax_inv_count(n: int) ensures 0 <= n <= usize::MAX ==> fpos(#[trigger] inv_count(n)) && fin(inv_count(n));
pub broadcast axiom fn ax_inv_mono(n: int, m: int) ensures 0 <= n <= m <= usize::MAX ==> fkey(#[trigger] inv_count(n)) >= fkey(#[trigger] inv_count(m));
pub open spec fn all_pos(s: Seq<f32>) -> bool { forall|i: int| 0 <= i < s.len() ==> fpos(#[trigger] s[i]) }
// a sum of positive numbers is positive (or infinite)
pub broadcast axiom fn ax_fsum(s: Seq<f32>) ensures s.len() > 0 && all_pos(s) ==> fpos(#[trigger] fsum(s));
// the quotient of a finite positive number by a positive one is not NaN nor negative
pub broadcast axiom fn ax_fdiv(a: f32, b: f32) ensures fpos(a) && fin(a) && fpos(b) ==> !nan(#[trigger] fdiv(a, b)) && fkey(fdiv(a, b)) >= fkey(0.0f32);
pub broadcast group float_axioms { ax_f32_obeys, ax_f32_cmp, ax_f32_nan, ax_f32_one_pos, ax_f32_lits, ax_f32_half, ax_f32_one, ax_inv_count, ax_inv_mono, ax_fsum, ax_fdiv, ax_zero_div }
}
}
