// colour ramps: the property's own tables
mod color { use super::*;
pub open spec fn clamp1(t: real) -> real { if t < 0real { 0real } else if t > 1real { 1real } else { t } }
/// one channel between two stops: the linear interpolation, truncated
pub open spec fn lerp(a: int, b: int, l: real) -> int { kx_clip(rtrunc(a as real + (b as real - a as real) * l), 255) }
/// stop i of the palette: position in hundredths and colour
pub open spec fn fire(i: int) -> (int, int, int, int) {
  if i == 0 { (0, 0, 0, 0) } else if i == 1 { (25, 128, 0, 128) } else if i == 2 { (50, 255, 165, 0) } else if i == 3 { (75, 255, 255, 0) } else { (100, 255, 255, 255) } }
pub open spec fn rainbow(i: int) -> (int, int, int, int) {
  if i == 0 { (0, 0, 0, 0) } else if i == 1 { (25, 0, 0, 255) } else if i == 2 { (50, 0, 255, 255) } else if i == 3 { (75, 255, 255, 0) } else if i == 4 { (90, 255, 0, 0) } else { (100, 255, 255, 255) } }
pub open spec fn pos(p: int) -> real { p as real / 100real }
/// c is the interpolated colour of t between stops p and q
pub open spec fn on_seg(t: real, p: (int, int, int, int), q: (int, int, int, int), c: Seq<u8>) -> bool {
  let l = (t - pos(p.0)) / (pos(q.0) - pos(p.0));
  c[0] as int == lerp(p.1, q.1, l) && c[1] as int == lerp(p.2, q.2, l) && c[2] as int == lerp(p.3, q.3, l) }
pub open spec fn fire_seg(t: real, i: int, c: Seq<u8>) -> bool { on_seg(t, fire(i), fire(i + 1), c) }
pub open spec fn rainbow_seg(t: real, i: int, c: Seq<u8>) -> bool { on_seg(t, rainbow(i), rainbow(i + 1), c) }
/// whatever pair of neighbouring stops t lies between, c is the interpolated colour there
pub open spec fn fire_at(t: real, c: Seq<u8>) -> bool { c.len() == 3 && forall|i: int| 0 <= i < 4 && pos(fire(i).0) <= t <= pos(fire(i + 1).0) ==> #[trigger] fire_seg(t, i, c) }
pub open spec fn rainbow_at(t: real, c: Seq<u8>) -> bool { c.len() == 3 && forall|i: int| 0 <= i < 5 && pos(rainbow(i).0) <= t <= pos(rainbow(i + 1).0) ==> #[trigger] rainbow_seg(t, i, c) }
pub proof fn lerp_ends(a: int, b: int) requires 0 <= a <= 255, 0 <= b <= 255 ensures lerp(a, b, 0real) == a, lerp(a, b, 1real) == b
{ assert(a as real + (b as real - a as real) * 0real == a as real) by (nonlinear_arith); assert(a as real + (b as real - a as real) * 1real == b as real) by (nonlinear_arith); }
/// neighbouring segments agree at their common stop
pub proof fn rainbow_any(t: real, k: int, c: Seq<u8>) requires 0 <= k < 5, c.len() == 3, pos(rainbow(k).0) <= t <= pos(rainbow(k + 1).0), rainbow_seg(t, k, c) ensures rainbow_at(t, c)
{
  assert forall|i: int| 0 <= i < 5 && pos(rainbow(i).0) <= t <= pos(rainbow(i + 1).0) implies #[trigger] rainbow_seg(t, i, c) by {
    let (p, q, u, v) = (rainbow(k), rainbow(k + 1), rainbow(i), rainbow(i + 1));
    if i != k {
      let (l, m) = ((t - pos(p.0)) / (pos(q.0) - pos(p.0)), (t - pos(u.0)) / (pos(v.0) - pos(u.0)));
      lerp_ends(p.1, q.1); lerp_ends(p.2, q.2); lerp_ends(p.3, q.3); lerp_ends(u.1, v.1); lerp_ends(u.2, v.2); lerp_ends(u.3, v.3);
      if i == k + 1 { assert(t == pos(q.0) && q == u); div_self(pos(q.0) - pos(p.0)); div_zero(pos(v.0) - pos(u.0)); assert(l == 1real && m == 0real); }
      else { assert(i == k - 1); assert(t == pos(p.0) && p == v); div_zero(pos(q.0) - pos(p.0)); div_self(pos(v.0) - pos(u.0)); assert(l == 0real && m == 1real); }
    }
  }
}
pub proof fn fire_any(t: real, k: int, c: Seq<u8>) requires 0 <= k < 4, c.len() == 3, pos(fire(k).0) <= t <= pos(fire(k + 1).0), fire_seg(t, k, c) ensures fire_at(t, c)
{
  assert forall|i: int| 0 <= i < 4 && pos(fire(i).0) <= t <= pos(fire(i + 1).0) implies #[trigger] fire_seg(t, i, c) by {
    let (p, q, u, v) = (fire(k), fire(k + 1), fire(i), fire(i + 1));
    if i != k {
      let (l, m) = ((t - pos(p.0)) / (pos(q.0) - pos(p.0)), (t - pos(u.0)) / (pos(v.0) - pos(u.0)));
      lerp_ends(p.1, q.1); lerp_ends(p.2, q.2); lerp_ends(p.3, q.3); lerp_ends(u.1, v.1); lerp_ends(u.2, v.2); lerp_ends(u.3, v.3);
      if i == k + 1 { assert(t == pos(q.0) && q == u); div_self(pos(q.0) - pos(p.0)); div_zero(pos(v.0) - pos(u.0)); assert(l == 1real && m == 0real); }
      else { assert(i == k - 1); assert(t == pos(p.0) && p == v); div_zero(pos(q.0) - pos(p.0)); div_self(pos(v.0) - pos(u.0)); assert(l == 0real && m == 1real); }
    }
  }
}
pub proof fn div_self(x: real) by (nonlinear_arith) requires x != 0real ensures x / x == 1real {}
pub proof fn div_zero(x: real) by (nonlinear_arith) requires x != 0real ensures 0real / x == 0real {}
/// the ramps start black and end white
pub proof fn ramp_ends(c: Seq<u8>) ensures rainbow_at(0real, c) || fire_at(0real, c) ==> c =~= seq![0u8, 0u8, 0u8], rainbow_at(1real, c) || fire_at(1real, c) ==> c =~= seq![255u8, 255u8, 255u8]
{
  lerp_ends(0, 0); lerp_ends(0, 128); lerp_ends(0, 255); lerp_ends(255, 255);
  div_zero(25real / 100real); div_self(25real / 100real); div_self(10real / 100real);
  assert(rainbow_at(0real, c) ==> rainbow_seg(0real, 0, c));
  assert(fire_at(0real, c) ==> fire_seg(0real, 0, c));
  assert(rainbow_at(1real, c) ==> rainbow_seg(1real, 4, c));
  assert(fire_at(1real, c) ==> fire_seg(1real, 3, c));
}
/// grey never gets darker as the value grows, and runs from black to white
pub proof fn gray_monotone(s: real, t: real, c: Seq<u8>, d: Seq<u8>) requires s <= t, gray_at(clamp1(s), c), gray_at(clamp1(t), d) ensures c[0] <= d[0], s <= 0real ==> c[0] == 0, t >= 1real ==> d[0] == 255
{ }
pub open spec fn legacy_at(t: real, c: Seq<u8>) -> bool {
  c.len() == 3 && c[0] as int == kx_clip(rtrunc(64real * (1real - t) + 255real * t), 255) && c[1] as int == kx_clip(rtrunc(255real * t), 255)
  && c[2] as int == kx_clip(rtrunc(64real * (1real - t) + 224real * t), 255) }
pub open spec fn gray_at(t: real, c: Seq<u8>) -> bool { c.len() == 3 && c[0] as int == kx_clip(rround(t * 255real), 255) && c[1] == c[0] && c[2] == c[0] }
pub uninterp spec fn viridis(t: real) -> (u8, u8, u8);
pub uninterp spec fn plasma(t: real) -> (u8, u8, u8);
pub uninterp spec fn inferno(t: real) -> (u8, u8, u8);
}
pub use color::*;
// Trusted: the colour tables of the colorous crate
pub mod colorous { use super::*;
pub struct Color { pub r: u8, pub g: u8, pub b: u8 }
pub struct VIRIDIS; pub struct PLASMA; pub struct INFERNO;
impl VIRIDIS { #[verifier::external_body] pub fn eval_continuous(&self, t: R) -> (c: Color) requires 0real <= t@ <= 1real ensures (c.r, c.g, c.b) == viridis(t@) { unimplemented!() } }
impl PLASMA { #[verifier::external_body] pub fn eval_continuous(&self, t: R) -> (c: Color) requires 0real <= t@ <= 1real ensures (c.r, c.g, c.b) == plasma(t@) { unimplemented!() } }
impl INFERNO { #[verifier::external_body] pub fn eval_continuous(&self, t: R) -> (c: Color) requires 0real <= t@ <= 1real ensures (c.r, c.g, c.b) == inferno(t@) { unimplemented!() } }
}
