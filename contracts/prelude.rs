#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, non_camel_case_types, unused_unsafe, unreachable_code)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---------------------------------------------------------------------------
// Trusted prelude: the abstract scalar R stands for f32/f64/T: Float with every
// operation read as exact real arithmetic (rounding, NaN and infinities are
// dropped by the extraction).
// ---------------------------------------------------------------------------
mod pre { use super::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl View for R { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn mkr(v: real) -> R;
pub broadcast axiom fn ax_mkr(v: real) ensures #[trigger] mkr(v)@ == v;
pub broadcast axiom fn ax_ext(a: R) ensures mkr(#[trigger] a@) == a;
pub broadcast group gr {ax_mkr, ax_ext}
impl vstd::std_specs::ops::AddSpecImpl<R> for R {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, rhs: R) -> bool { true }
  open spec fn add_spec(self, rhs: R) -> R { mkr(self@ + rhs@) }
}
impl core::ops::Add for R { type Output = R; #[verifier::external_body] fn add(self, rhs: R) -> R { R{x: self.x + rhs.x} } }
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, rhs: R) -> bool { true }
  open spec fn sub_spec(self, rhs: R) -> R { mkr(self@ - rhs@) }
}
impl core::ops::Sub for R { type Output = R; #[verifier::external_body] fn sub(self, rhs: R) -> R { R{x: self.x - rhs.x} } }
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, rhs: R) -> bool { true }
  open spec fn mul_spec(self, rhs: R) -> R { mkr(self@ * rhs@) }
}
impl core::ops::Mul for R { type Output = R; #[verifier::external_body] fn mul(self, rhs: R) -> R { R{x: self.x * rhs.x} } }
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, rhs: R) -> bool { true }
  open spec fn div_spec(self, rhs: R) -> R { mkr(self@ / rhs@) }
}
impl core::ops::Div for R { type Output = R; #[verifier::external_body] fn div(self, rhs: R) -> R { R{x: self.x / rhs.x} } }
impl vstd::std_specs::ops::NegSpecImpl for R {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> R { mkr(-self@) }
}
impl core::ops::Neg for R { type Output = R; #[verifier::external_body] fn neg(self) -> R { R{x: -self.x} } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for R {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &R) -> bool { self@ == other@ }
}
impl PartialEq for R { #[verifier::external_body] fn eq(&self, other: &R) -> bool { self.x == other.x } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for R {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &R) -> Option<core::cmp::Ordering> {
    if self@ < other@ { Some(core::cmp::Ordering::Less) }
    else if self@ == other@ { Some(core::cmp::Ordering::Equal) }
    else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for R { #[verifier::external_body] fn partial_cmp(&self, other: &R) -> Option<core::cmp::Ordering> { self.x.partial_cmp(&other.x) } }

// ---- real functions (uninterpreted, standard facts only) --------------------
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rlog10(x: real) -> real;
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rtrunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
/// nearest integer, halves away from zero
pub open spec fn rround(x: real) -> int { if x >= 0real { (x + 1real / 2real).floor() } else { -((1real / 2real - x).floor()) } }
pub axiom fn ax_pi_pos() ensures rpi() > 3real;
pub axiom fn ax_cos_add(a: real, b: real) ensures rcos(a + b) == rcos(a) * rcos(b) - rsin(a) * rsin(b);
pub axiom fn ax_sin_add(a: real, b: real) ensures rsin(a + b) == rsin(a) * rcos(b) + rcos(a) * rsin(b);
pub axiom fn ax_neg(a: real) ensures rcos(-a) == rcos(a), rsin(-a) == -rsin(a);
pub axiom fn ax_zero() ensures rcos(0real) == 1real, rsin(0real) == 0real;
pub axiom fn ax_pi() ensures rcos(rpi()) == -1real, rsin(rpi()) == 0real;
pub axiom fn ax_pi_2() ensures rcos(rpi() / 2real) == 0real, rsin(rpi() / 2real) == 1real;
pub axiom fn ax_pi_4() ensures rcos(rpi() / 4real) == rsqrt(1real / 2real), rsin(rpi() / 4real) == rsqrt(1real / 2real);
pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;

impl R {
  #[verifier::external_body] pub fn zero() -> (r: R) ensures r@ == 0real, r == mkr(0real) { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: R) ensures r@ == 1real, r == mkr(1real) { unimplemented!() }
  #[verifier::external_body] pub fn lit(n: u64, d: u64) -> (r: R) requires d != 0 ensures r@ == (n as real) / (d as real), r == mkr((n as real) / (d as real)) { unimplemented!() }
  #[verifier::external_body] pub fn lit_big(n: u128, d: u128) -> (r: R) requires d != 0 ensures r@ == (n as real) / (d as real) { unimplemented!() }
  #[verifier::external_body] pub fn pi() -> (r: R) ensures r@ == rpi() { unimplemented!() }
  #[verifier::external_body] pub fn c_sqrt1_2() -> (r: R) ensures r@ == rsqrt(1real / 2real) { unimplemented!() }
  #[verifier::external_body] pub fn c_sqrt2() -> (r: R) ensures r@ == rsqrt(2real) { unimplemented!() }
  #[verifier::external_body] pub fn c_cos_pi_8() -> (r: R) ensures r@ == rcos(rpi() / 8real) { unimplemented!() }
  #[verifier::external_body] pub fn c_sin_pi_8() -> (r: R) ensures r@ == rsin(rpi() / 8real) { unimplemented!() }
  #[verifier::external_body] pub fn from_f32(x: R) -> (r: R) ensures r == x { unimplemented!() }
  #[verifier::external_body] pub fn cos(self) -> (r: R) ensures r@ == rcos(self@) { unimplemented!() }
  #[verifier::external_body] pub fn sin(self) -> (r: R) ensures r@ == rsin(self@) { unimplemented!() }
  #[verifier::external_body] pub fn sin_cos(self) -> (r: (R, R)) ensures r.0@ == rsin(self@), r.1@ == rcos(self@) { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, a: R, b: R) -> (r: R) ensures r@ == self@ * a@ + b@ { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: R) ensures r@ == rsqrt(self@) { unimplemented!() }
  #[verifier::external_body] pub fn exp(self) -> (r: R) ensures r@ == rexp(self@) { unimplemented!() }
  #[verifier::external_body] pub fn ln(self) -> (r: R) ensures r@ == rln(self@) { unimplemented!() }
  #[verifier::external_body] pub fn log10(self) -> (r: R) ensures r@ == rlog10(self@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r@ == rabs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn powf(self, y: R) -> (r: R) ensures r@ == rpow(self@, y@) { unimplemented!() }
  #[verifier::external_body] pub fn floor(self) -> (r: R) ensures r@ == (self@.floor() as real) { unimplemented!() }
  #[verifier::external_body] pub fn ceil(self) -> (r: R) ensures r@ == -((-self@).floor() as real) { unimplemented!() }
  #[verifier::external_body] pub fn trunc(self) -> (r: R) ensures r@ == (rtrunc(self@) as real) { unimplemented!() }
  #[verifier::external_body] pub fn round(self) -> (r: R) ensures r@ == (rround(self@) as real) { unimplemented!() }
  #[verifier::external_body] pub fn max(self, y: R) -> (r: R) ensures r@ == (if self@ < y@ { y@ } else { self@ }) { unimplemented!() }
  #[verifier::external_body] pub fn clamp(self, a: R, b: R) -> (r: R) requires a@ <= b@ ensures r@ == (if self@ < a@ { a@ } else if self@ > b@ { b@ } else { self@ }) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, y: R) -> (r: R) ensures r@ == (if y@ < self@ { y@ } else { self@ }) { unimplemented!() }
  #[verifier::external_body] pub fn epsilon() -> (r: R) ensures 0real < r@ < 1real / 1000real { unimplemented!() }
  #[verifier::external_body] pub fn min_positive() -> (r: R) ensures 0real < r@ < 1real / 1000real { unimplemented!() }
  #[verifier::external_body] pub fn max_value() -> (r: R) ensures r@ > 1000real { unimplemented!() }
  #[verifier::external_body] pub fn recip(self) -> (r: R) ensures r@ == 1real / self@ { unimplemented!() }
  #[verifier::external_body] pub fn hypot(self, y: R) -> (r: R) ensures r@ == rsqrt(self@ * self@ + y@ * y@) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, n: i32) -> (r: R) ensures n == 0 ==> r@ == 1real, n == 1 ==> r@ == self@, n == 2 ==> r@ == self@ * self@, n == 3 ==> r@ == self@ * self@ * self@, n == -1 ==> r@ == 1real / self@ { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r { unimplemented!() }
  #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: R) ensures r == *self { unimplemented!() }
}
}
pub use pre::*;
broadcast use pre::gr;

// ---- library helpers: documented behaviour of core/alloc functions -----------
#[verifier::external_body] pub fn kx_vac() -> (b: bool) { unimplemented!() }
#[verifier::external_body] pub fn kx_panic() -> ! requires false { unimplemented!() }
pub fn kx_assert(b: bool) requires b {}
/// an `assert!` that refuses the call: a false condition ends the call (panic) before anything after it
#[verifier::external_body] pub fn kx_refuse(b: bool) ensures b { assert!(b) }
/// integer types that are converted to floating point with `as`
pub trait KxInt: Sized { spec fn kint(self) -> int; }
impl KxInt for usize { open spec fn kint(self) -> int { self as int } }
impl KxInt for u64 { open spec fn kint(self) -> int { self as int } }
impl KxInt for u32 { open spec fn kint(self) -> int { self as int } }
impl KxInt for i32 { open spec fn kint(self) -> int { self as int } }
#[verifier::external_body] pub fn kx_as_r<I: KxInt>(n: I) -> (r: R) ensures r@ == n.kint() as real, r == mkr(n.kint() as real) { unimplemented!() }
/// `x as usize`: truncation, saturating at 0 below
pub uninterp spec fn kx_sat(x: real) -> usize;
#[verifier::external_body] pub fn kx_r_as_usize(x: R) -> (n: usize)
  ensures n == kx_sat(x@), 0real <= x@ && x@.floor() <= usize::MAX ==> n as int == x@.floor(), x@ < 0real ==> n == 0 { unimplemented!() }
#[verifier::external_body] pub fn kx_vec<T: Clone + Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
#[verifier::external_body] pub fn kx_vecs<T: Clone + Copy>(x: Vec<T>, n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == x@ { vec![x; n] }
pub fn kx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn kx_umax(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[verifier::external_body] pub fn kx_satmul(a: usize, b: usize) -> (r: usize) ensures r as int == (if a as int * b as int <= usize::MAX { a as int * b as int } else { usize::MAX as int }) { a.saturating_mul(b) }
pub fn kx_span(lo: usize, hi: usize) -> (r: usize) ensures r == (if hi > lo { hi - lo } else { 0 }) { if hi > lo { hi - lo } else { 0 } }
/// number of items of `(lo..hi).step_by(s)`
#[verifier::external_body] pub fn kx_steps(lo: usize, hi: usize, s: usize) -> (r: usize) requires s > 0
  ensures hi <= lo ==> r == 0,
    hi > lo ==> r > 0 && lo as int + (r - 1) * (s as int) < hi && lo as int + (r as int) * (s as int) >= hi { unimplemented!() }
pub fn kx_range_len(lo: usize, hi: usize, len: usize) -> (r: usize) requires lo <= hi, hi <= len ensures r == hi - lo { hi - lo }
#[verifier::external_body] pub fn kx_div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0
  ensures r as int == (a as int + b as int - 1) / (b as int), r as int * b as int >= a, a > 0 ==> (r - 1) * (b as int) < a, a == 0 ==> r == 0 { a.div_ceil(b) }
#[verifier::external_body] pub fn kx_is_multiple_of<I: KxInt>(a: I, b: I) -> (r: bool) ensures b.kint() > 0 ==> (r <==> a.kint() % b.kint() == 0), b.kint() == 0 ==> (r <==> a.kint() == 0) { unimplemented!() }
pub open spec fn pow2(e: nat) -> nat decreases e { if e == 0 { 1 } else { 2 * pow2((e - 1) as nat) } }
pub open spec fn is_pow2(n: int) -> bool { exists|e: nat| n == #[trigger] pow2(e) }
#[verifier::external_body] pub fn kx_is_power_of_two(a: usize) -> (r: bool) ensures r <==> is_pow2(a as int) { unimplemented!() }
#[verifier::external_body] pub fn kx_next_power_of_two(a: usize) -> (r: usize) requires a <= 0x4000_0000_0000_0000 ensures is_pow2(r as int), r >= a, r >= 1, a >= 1 ==> r < 2 * a { unimplemented!() }
#[verifier::external_body] pub fn kx_count_ones(a: usize) -> (r: u32) ensures r == 1 <==> is_pow2(a as int) { a.count_ones() }
#[verifier::external_body] pub fn kx_trailing_zeros(a: usize) -> (r: u32) ensures is_pow2(a as int) ==> a as int == pow2(r as nat) { unimplemented!() }
#[verifier::external_body] pub fn kx_copy_from_slice<T: Copy>(d: &mut [T], s: &[T]) requires old(d)@.len() == s@.len() ensures final(d)@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn kx_fill<T: Copy>(d: &mut [T], x: T) ensures final(d)@.len() == old(d)@.len(), forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == x { unimplemented!() }
#[verifier::external_body] pub fn kx_slice_swap<T>(d: &mut [T], a: usize, b: usize) requires a < old(d)@.len(), b < old(d)@.len() ensures final(d)@ == old(d)@.update(a as int, old(d)@[b as int]).update(b as int, old(d)@[a as int]) { unimplemented!() }
#[verifier::external_body] pub fn kx_array_swap<T, const N: usize>(d: &mut [T; N], a: usize, b: usize) requires a < N, b < N ensures final(d)@ == old(d)@.update(a as int, old(d)@[b as int]).update(b as int, old(d)@[a as int]) { unimplemented!() }
#[verifier::external_body] pub fn kx_resize<T: Clone + Copy>(d: &mut Vec<T>, n: usize, x: T) ensures final(d)@.len() == n,
  forall|i: int| 0 <= i < n ==> #[trigger] final(d)@[i] == (if i < old(d)@.len() { old(d)@[i] } else { x }) { unimplemented!() }
#[verifier::external_body] pub fn kx_extend<T: Copy>(d: &mut Vec<T>, s: &[T]) ensures final(d)@ == old(d)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn kx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn kx_swap_vec<T>(a: &mut Vec<T>, b: &mut Vec<T>) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { unimplemented!() }
#[verifier::external_body] pub fn kx_copy_nonoverlapping<T: Copy>(s: &Vec<T>, d: &mut [T], n: usize) requires n <= s@.len(), n <= old(d)@.len()
  ensures final(d)@.len() == old(d)@.len(), forall|i: int| 0 <= i < n ==> #[trigger] final(d)@[i] == s@[i], forall|i: int| n <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == old(d)@[i] { unimplemented!() }
#[verifier::external_body] pub fn kx_write_back<T: Copy>(s: &Vec<T>, d: &mut [T]) requires s@.len() == old(d)@.len() ensures final(d)@ == s@ { unimplemented!() }
pub fn kx_sum_zero() -> (r: R) ensures r@ == 0real { R::zero() }
/// `&mut v[a..b]` on vectors and slices alike
pub trait KxMs<T> { spec fn kv(&self) -> Seq<T>;
  fn kx_ms(&mut self) -> (r: &mut [T]) ensures r@ == old(self).kv(), final(self).kv() == final(r)@; }
impl<T> KxMs<T> for Vec<T> { open spec fn kv(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn kx_ms(&mut self) -> (r: &mut [T]) { &mut self[..] } }
impl<T> KxMs<T> for [T] { open spec fn kv(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn kx_ms(&mut self) -> (r: &mut [T]) { self } }
