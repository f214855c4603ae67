// ---- x86 vector intrinsics used by the split FFT: documented lane-wise behaviour ------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct V4 { x: [f64; 4] }
impl V4 { pub uninterp spec fn l(&self, i: int) -> real; }
#[verifier::external_body] pub fn mm_set1_ps(x: R) -> (r: V4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == x@ { unimplemented!() }
#[verifier::external_body] pub fn mm_add_ps(a: V4, b: V4) -> (r: V4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a.l(i) + b.l(i) { unimplemented!() }
#[verifier::external_body] pub fn mm_sub_ps(a: V4, b: V4) -> (r: V4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a.l(i) - b.l(i) { unimplemented!() }
#[verifier::external_body] pub fn mm_mul_ps(a: V4, b: V4) -> (r: V4) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == a.l(i) * b.l(i) { unimplemented!() }
#[verifier::external_body] pub fn mm_loadu_ps(s: &Vec<R>, o: usize) -> (r: V4) requires o + 4 <= s@.len() ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r.l(i) == s@[o + i]@ { unimplemented!() }
#[verifier::external_body] pub fn mm_storeu_ps(d: &mut Vec<R>, o: usize, v: V4) requires o + 4 <= old(d)@.len()
  ensures final(d)@.len() == old(d)@.len(), forall|p: int| o <= p < o + 4 ==> (#[trigger] final(d)@[p])@ == v.l(p - o),
    forall|i: int| 0 <= i < old(d)@.len() && !(o <= i < o + 4) ==> #[trigger] final(d)@[i] == old(d)@[i] { unimplemented!() }
