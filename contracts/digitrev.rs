// ---- digit reversal and in-place decimation-in-time stages -------------------------------
pub open spec fn bp(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * bp(b, (e - 1) as nat) } }
pub open spec fn rev(b: int, e: nat, i: int) -> int decreases e { if e == 0 { 0 } else { (i % b) * bp(b, (e - 1) as nat) + rev(b, (e - 1) as nat, i / b) } }
pub proof fn bp_pos(b: int, e: nat) requires b >= 2 ensures bp(b, e) >= 1 decreases e
{ if e > 0 { bp_pos(b, (e - 1) as nat); assert(b * bp(b, (e - 1) as nat) >= 1) by(nonlinear_arith) requires b >= 2, bp(b, (e - 1) as nat) >= 1; } }
pub proof fn bp_add(b: int, e: nat, f: nat) ensures bp(b, e + f) == bp(b, e) * bp(b, f) decreases e
{ if e > 0 { bp_add(b, (e - 1) as nat, f); assert(bp(b, e + f) == b * bp(b, (e - 1 + f) as nat)); assert(b * (bp(b, (e - 1) as nat) * bp(b, f)) == (b * bp(b, (e - 1) as nat)) * bp(b, f)) by(nonlinear_arith); }
  else { assert(1 * bp(b, f) == bp(b, f)); } }
pub proof fn bp_mono(b: int, e: nat, f: nat) requires b >= 2, e <= f ensures bp(b, e) <= bp(b, f) decreases f
{ if e < f { bp_mono(b, e, (f - 1) as nat); bp_pos(b, (f - 1) as nat); assert(b * bp(b, (f - 1) as nat) >= bp(b, (f - 1) as nat)) by(nonlinear_arith) requires b >= 2, bp(b, (f - 1) as nat) >= 1; } }
pub proof fn bp_lt(b: int, e: nat, f: nat) requires b >= 2, bp(b, e) < bp(b, f) ensures e < f { if f <= e { bp_mono(b, f, e); } }
pub proof fn divb(b: int, q: int, r: int) requires b >= 2, 0 <= r < b ensures (q * b + r) / b == q, (q * b + r) % b == r
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * b + r, b, q, r); }
pub proof fn rev_range(b: int, e: nat, i: int) requires b >= 2, i >= 0 ensures 0 <= rev(b, e, i) < bp(b, e) decreases e
{
  if e > 0 {
    let p = bp(b, (e - 1) as nat); let r = i % b; let t = rev(b, (e - 1) as nat, i / b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, b);
    assert(i / b >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, b); }
    rev_range(b, (e - 1) as nat, i / b); bp_pos(b, (e - 1) as nat);
    assert(0 <= r * p && r * p + p <= b * p) by(nonlinear_arith) requires 0 <= r, r <= b - 1, p >= 1;
  }
}
/// top digit hi, rest lo
pub proof fn rev_split(b: int, e: nat, hi: int, lo: int)
  requires b >= 2, 0 <= hi < b, 0 <= lo < bp(b, e)
  ensures rev(b, e + 1, hi * bp(b, e) + lo) == rev(b, e, lo) * b + hi
  decreases e
{
  let i = hi * bp(b, e) + lo;
  if e == 0 {
    assert(bp(b, 0) == 1); assert(hi * 1 == hi); assert(i == hi);
    divb(b, 0, hi); assert(0 * b == 0);
    assert(rev(b, 1, i) == (i % b) * bp(b, 0) + rev(b, 0, i / b)); assert(rev(b, 0, lo) == 0);
  } else {
    let p = bp(b, (e - 1) as nat); let lq = lo / b; let lr = lo % b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(lo, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(lo, b);
    assert(lq * b + lr == lo) by { assert(b * lq == lq * b) by(nonlinear_arith); }
    assert(lq < p) by(nonlinear_arith) requires lq * b + lr == lo, lo < b * p, lr >= 0, b >= 2;
    assert(i == (hi * p + lq) * b + lr) by(nonlinear_arith) requires i == hi * (b * p) + lo, lo == lq * b + lr;
    divb(b, hi * p + lq, lr);
    rev_split(b, (e - 1) as nat, hi, lq);
    let rr = rev(b, (e - 1) as nat, lq);
    assert(rev(b, e + 1, i) == lr * bp(b, e) + rev(b, e, hi * p + lq));
    assert(rev(b, e, lo) == lr * p + rr);
    assert((lr * p + rr) * b + hi == lr * (b * p) + (rr * b + hi)) by(nonlinear_arith);
  }
}
pub proof fn rev_inv(b: int, e: nat, i: int) requires b >= 2, 0 <= i < bp(b, e) ensures rev(b, e, rev(b, e, i)) == i decreases e
{
  if e > 0 {
    let q = i / b; let r = i % b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, b);
    assert(q * b + r == i) by { assert(b * q == q * b) by(nonlinear_arith); }
    let p = bp(b, (e - 1) as nat);
    assert(q < p) by(nonlinear_arith) requires q * b + r == i, i < b * p, r >= 0, b >= 2;
    rev_range(b, (e - 1) as nat, q);
    rev_split(b, (e - 1) as nat, r, rev(b, (e - 1) as nat, q));
    rev_inv(b, (e - 1) as nat, q);
  }
}
pub proof fn rev_zero(b: int, e: nat) requires b >= 2 ensures rev(b, e, 0) == 0 decreases e
{ if e > 0 { rev_zero(b, (e - 1) as nat); divb(b, 0, 0); assert(0 * b == 0); assert(0 * bp(b, (e - 1) as nat) == 0); } }
pub proof fn rev_off(b: int, e: nat, s: nat, c: int, q: int)
  requires b >= 2, s < e, 0 <= q < b, c >= 0
  ensures rev(b, e, c * bp(b, s + 1) + q * bp(b, s)) == rev(b, e, c * bp(b, s + 1)) + q * bp(b, (e - s - 1) as nat)
  decreases s
{
  let i0 = c * bp(b, s + 1); let i1 = i0 + q * bp(b, s);
  let f = (e - 1) as nat;
  if s == 0 {
    assert(bp(b, 1) == b * bp(b, 0)); assert(bp(b, 0) == 1);
    assert(b * 1 == b); assert(q * 1 == q); assert(i0 == c * b + 0); assert(i1 == c * b + q);
    divb(b, c, q); divb(b, c, 0);
    assert(0 * bp(b, f) == 0);
  } else {
    let t = (s - 1) as nat;
    assert(bp(b, s + 1) == b * bp(b, s)); assert(bp(b, s) == b * bp(b, t));
    assert(i0 == (c * bp(b, s)) * b + 0) by(nonlinear_arith) requires i0 == c * (b * bp(b, s));
    assert(i1 == (c * bp(b, s) + q * bp(b, t)) * b + 0) by(nonlinear_arith) requires i0 == (c * bp(b, s)) * b + 0, i1 == i0 + q * (b * bp(b, t));
    divb(b, c * bp(b, s), 0); divb(b, c * bp(b, s) + q * bp(b, t), 0);
    assert(0 * bp(b, f) == 0);
    rev_off(b, f, t, c, q);
  }
}
/// top digit not b - 1: add one to it; otherwise carry
pub proof fn rev_inc(b: int, d: nat, i: int)
  requires b >= 2, 0 <= i, i + 1 < bp(b, d)
  ensures d >= 1,
    rev(b, d, i) >= (b - 1) * bp(b, (d - 1) as nat) <==> i % b == b - 1,
    i % b != b - 1 ==> rev(b, d, i + 1) == rev(b, d, i) + bp(b, (d - 1) as nat),
    i % b == b - 1 ==> d >= 2 && 0 <= i / b && i / b + 1 < bp(b, (d - 1) as nat) && rev(b, d, i + 1) == rev(b, (d - 1) as nat, i / b + 1)
       && rev(b, (d - 1) as nat, i / b) == rev(b, d, i) - (b - 1) * bp(b, (d - 1) as nat),
{
  if d == 0 { assert(false); }
  let p = bp(b, (d - 1) as nat); let q = i / b; let r = i % b; let t = rev(b, (d - 1) as nat, q);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, b);
  vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, b);
  assert(q * b + r == i) by { assert(b * q == q * b) by(nonlinear_arith); }
  bp_pos(b, (d - 1) as nat); rev_range(b, (d - 1) as nat, q);
  assert(rev(b, d, i) == r * p + t);
  if r == b - 1 {
    assert((q + 1) * b + 0 == i + 1) by(nonlinear_arith) requires q * b + r == i, r == b - 1;
    divb(b, q + 1, 0); assert(0 * p == 0);
    assert(q + 1 < p) by(nonlinear_arith) requires (q + 1) * b == i + 1, i + 1 < b * p, b >= 2;
  } else {
    divb(b, q, r + 1); assert(q * b + (r + 1) == i + 1);
    assert((r + 1) * p == r * p + p) by(nonlinear_arith);
    assert(r * p + t < (b - 1) * p) by(nonlinear_arith) requires 0 <= r, r <= b - 2, 0 <= t, t < p, p >= 1;
  }
}
/// swaps 1..i of the reversal permutation have been made
pub open spec fn swapped<T>(x: Seq<T>, y: Seq<T>, b: int, e: nat, i: int) -> bool {
  y.len() == x.len() && forall|p: int| 0 <= p < x.len() ==> #[trigger] y[p] == (if p < i || rev(b, e, p) < i { x[rev(b, e, p)] } else { x[p] }) }
pub proof fn swapped_start<T>(x: Seq<T>, b: int, e: nat) requires b >= 2, x.len() == bp(b, e) ensures swapped(x, x, b, e, 1)
{
  rev_zero(b, e);
  assert forall|p: int| 0 <= p < x.len() implies #[trigger] x[p] == (if p < 1 || rev(b, e, p) < 1 { x[rev(b, e, p)] } else { x[p] }) by {
    rev_range(b, e, p); rev_inv(b, e, p); }
}
pub proof fn swapped_step<T>(x: Seq<T>, y: Seq<T>, z: Seq<T>, b: int, e: nat, i: int, j: int)
  requires b >= 2, x.len() == bp(b, e), 0 <= i < x.len(), swapped(x, y, b, e, i), j == rev(b, e, i),
    z == if i < j { y.update(i, y[j]).update(j, y[i]) } else { y }
  ensures swapped(x, z, b, e, i + 1), 0 <= j < x.len()
{
  rev_range(b, e, i); rev_inv(b, e, i);
  assert forall|p: int| 0 <= p < x.len() implies #[trigger] z[p] == (if p < i + 1 || rev(b, e, p) < i + 1 { x[rev(b, e, p)] } else { x[p] }) by {
    rev_range(b, e, p); rev_inv(b, e, p);
    assert(y[p] == (if p < i || rev(b, e, p) < i { x[rev(b, e, p)] } else { x[p] }));
    assert(y[i] == (if i < i || rev(b, e, i) < i { x[rev(b, e, i)] } else { x[i] }));
    assert(y[j] == (if j < i || rev(b, e, j) < i { x[rev(b, e, j)] } else { x[j] }));
  }
}
/// value of position i after the stage with blocks of L = b^s elements: bin i % L of the samples rev(block start), + m, + 2m, ...
#[verifier::opaque]
pub open spec fn dt(x: Seq<C>, b: int, e: nat, s: nat, i: int) -> C {
  sub_dft(x, bp(b, s), bp(b, (e - s) as nat), i % bp(b, s), rev(b, e, (i / bp(b, s)) * bp(b, s))) }
pub proof fn dt_at(x: Seq<C>, b: int, e: nat, s: nat, c: int, k: int) requires 0 <= k < bp(b, s)
  ensures dt(x, b, e, s, c * bp(b, s) + k) == sub_dft(x, bp(b, s), bp(b, (e - s) as nat), k, rev(b, e, c * bp(b, s)))
{ reveal(dt); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c * bp(b, s) + k, bp(b, s), c, k); }
pub proof fn dt_first(x: Seq<C>, b: int, e: nat, i: int) requires b >= 2, x.len() == bp(b, e), 0 <= i < x.len() ensures dt(x, b, e, 0, i) == x[rev(b, e, i)]
{ reveal(dt); assert(bp(b, 0) == 1); assert(i % 1 == 0 && (i / 1) * 1 == i); sub_one(x, bp(b, e), 0, rev(b, e, i)); }
pub proof fn dt_last(x: Seq<C>, b: int, e: nat, i: int) requires b >= 2, x.len() == bp(b, e), 0 <= i < x.len() ensures dt(x, b, e, e, i) == dft(x, i)
{ dt_at(x, b, e, e, 0, i); assert(0 * bp(b, e) == 0); rev_zero(b, e); assert(bp(b, 0) == 1); }
/// radix-2 butterfly: L = 2^s, block c of the next stage starts at i0 = c * 2L
pub proof fn dt_step2(x: Seq<C>, e: nat, s: nat, c: int, k: int, l: int, i0: int)
  requires s < e, l == bp(2, s), 0 <= k < l, c >= 0, i0 == c * (2 * l)
  ensures
    dt(x, 2, e, s + 1, i0 + k) == cadd(dt(x, 2, e, s, i0 + k), cmul(dt(x, 2, e, s, i0 + l + k), W(2 * l, k))),
    dt(x, 2, e, s + 1, i0 + l + k) == csub(dt(x, 2, e, s, i0 + k), cmul(dt(x, 2, e, s, i0 + l + k), W(2 * l, k))),
{
  let m = bp(2, (e - s - 1) as nat); let j = rev(2, e, i0);
  bp_pos(2, s);
  assert(bp(2, s + 1) == 2 * l); assert(bp(2, (e - s) as nat) == 2 * m); assert((e - (s + 1)) as nat == (e - s - 1) as nat);
  dt_at(x, 2, e, s + 1, c, k); dt_at(x, 2, e, s + 1, c, l + k);
  assert((2 * c) * l == i0) by(nonlinear_arith) requires i0 == c * (2 * l);
  assert((2 * c + 1) * l == i0 + l) by(nonlinear_arith) requires i0 == c * (2 * l);
  dt_at(x, 2, e, s, 2 * c, k); dt_at(x, 2, e, s, 2 * c + 1, k);
  rev_off(2, e, s, c, 1);
  assert(1 * bp(2, s) == l && 1 * m == m);
  fft_step(x, l, m, k, j);
  assert(k + l == l + k);
}
pub proof fn rot4(a: C) ensures cmul(a, C { re: 0real, im: -1real }) == (C { re: a.im, im: -a.re })
{ assert(a.re * 0real - a.im * (-1real) == a.im && a.re * (-1real) + a.im * 0real == -a.re) by(nonlinear_arith); }
/// outputs of the 4-point butterfly
pub open spec fn b4(a: C, b: C, c: C, d: C, q: int) -> C {
  let u = cadd(a, c); let v = csub(a, c); let s = cadd(b, d); let t = csub(b, d); let t3 = C { re: t.im, im: -t.re };
  if q == 0 { cadd(u, s) } else if q == 1 { cadd(v, t3) } else if q == 2 { csub(u, s) } else { csub(v, t3) } }
pub proof fn sub4(x: Seq<C>, l: int, m: int, k: int, j: int)
  requires l > 0
  ensures ({
    let a = sub_dft(x, l, 4 * m, k, j); let b = cmul(sub_dft(x, l, 4 * m, k, j + m), W(4 * l, k));
    let c = cmul(sub_dft(x, l, 4 * m, k, j + 2 * m), W(4 * l, 2 * k)); let d = cmul(sub_dft(x, l, 4 * m, k, j + 3 * m), W(4 * l, 3 * k));
    sub_dft(x, 4 * l, m, k, j) == b4(a, b, c, d, 0) && sub_dft(x, 4 * l, m, k + l, j) == b4(a, b, c, d, 1)
    && sub_dft(x, 4 * l, m, k + 2 * l, j) == b4(a, b, c, d, 2) && sub_dft(x, 4 * l, m, k + 3 * l, j) == b4(a, b, c, d, 3) })
{
  let w = W(4 * l, k); let w2 = W(4 * l, 2 * k); let w3 = W(4 * l, 3 * k);
  let s0 = sub_dft(x, l, 4 * m, k, j); let s1 = sub_dft(x, l, 4 * m, k, j + m); let s2 = sub_dft(x, l, 4 * m, k, j + 2 * m); let s3 = sub_dft(x, l, 4 * m, k, j + 3 * m);
  assert(2 * (2 * m) == 4 * m); assert(2 * (2 * l) == 4 * l);
  // level 1: pairs (j, j + 2m) and (j + m, j + 3m)
  fft_step(x, l, 2 * m, k, j); fft_step(x, l, 2 * m, k, j + m);
  assert(j + m + 2 * m == j + 3 * m);
  assert(W(2 * l, k) == w2) by { w_scale(2 * l, 2, k); assert((2 * l) * 2 == 4 * l); assert(k * 2 == 2 * k); }
  let e0 = sub_dft(x, 2 * l, 2 * m, k, j); let e1 = sub_dft(x, 2 * l, 2 * m, k + l, j);
  let o0 = sub_dft(x, 2 * l, 2 * m, k, j + m); let o1 = sub_dft(x, 2 * l, 2 * m, k + l, j + m);
  assert(e0 == cadd(s0, cmul(s2, w2)) && e1 == csub(s0, cmul(s2, w2)));
  assert(o0 == cadd(s1, cmul(s3, w2)) && o1 == csub(s1, cmul(s3, w2)));
  // level 2
  fft_step(x, 2 * l, m, k, j); fft_step(x, 2 * l, m, k + l, j);
  assert(k + l + 2 * l == k + 3 * l);
  // W(4l, k + l) == w * (-i)
  w_add(4 * l, k, l); w4_1(); w_scale(4, l, 1); assert(1 * l == l);
  w_add(4 * l, 2 * k, k); assert(2 * k + k == 3 * k);
  let mi = C { re: 0real, im: -1real };
  let b = cmul(s1, w); let d = cmul(s3, w3); let c = cmul(s2, w2);
  cmul_assoc(s3, w2, w);
  assert(cmul(cmul(s3, w2), w) == d);
  // o0 * w == b + d ; o1 * w * (-i) == (b - d) * (-i)
  cmul_dist(s1, cmul(s3, w2), w);
  assert(cmul(o0, w) == cadd(b, d));
  cmul_neg(cmul(s3, w2), w); cmul_dist(s1, cneg(cmul(s3, w2)), w); 
  cmul_comm(cneg(cmul(s3, w2)), w); cmul_comm(cmul(s3, w2), w); cmul_neg(w, cmul(s3, w2));
  assert(cadd(s1, cneg(cmul(s3, w2))) == o1);
  assert(cmul(o1, w) == csub(b, d));
  cmul_assoc(o1, w, mi); rot4(csub(b, d));
}
pub proof fn dt_step4(x: Seq<C>, e: nat, s: nat, c: int, k: int, l: int, i0: int)
  requires s < e, l == bp(4, s), 0 <= k < l, c >= 0, i0 == c * (4 * l)
  ensures ({
    let a = dt(x, 4, e, s, i0 + k); let b = cmul(dt(x, 4, e, s, i0 + l + k), W(4 * l, k));
    let cc = cmul(dt(x, 4, e, s, i0 + 2 * l + k), W(4 * l, 2 * k)); let d = cmul(dt(x, 4, e, s, i0 + 3 * l + k), W(4 * l, 3 * k));
    dt(x, 4, e, s + 1, i0 + k) == b4(a, b, cc, d, 0) && dt(x, 4, e, s + 1, i0 + l + k) == b4(a, b, cc, d, 1)
    && dt(x, 4, e, s + 1, i0 + 2 * l + k) == b4(a, b, cc, d, 2) && dt(x, 4, e, s + 1, i0 + 3 * l + k) == b4(a, b, cc, d, 3) })
{
  let m = bp(4, (e - s - 1) as nat); let j = rev(4, e, i0);
  bp_pos(4, s);
  assert(bp(4, s + 1) == 4 * l); assert(bp(4, (e - s) as nat) == 4 * m); assert((e - (s + 1)) as nat == (e - s - 1) as nat);
  dt_at(x, 4, e, s + 1, c, k); dt_at(x, 4, e, s + 1, c, l + k); dt_at(x, 4, e, s + 1, c, 2 * l + k); dt_at(x, 4, e, s + 1, c, 3 * l + k);
  assert((4 * c) * l == i0 && (4 * c + 1) * l == i0 + l && (4 * c + 2) * l == i0 + 2 * l && (4 * c + 3) * l == i0 + 3 * l) by(nonlinear_arith) requires i0 == c * (4 * l);
  dt_at(x, 4, e, s, 4 * c, k); dt_at(x, 4, e, s, 4 * c + 1, k); dt_at(x, 4, e, s, 4 * c + 2, k); dt_at(x, 4, e, s, 4 * c + 3, k);
  rev_off(4, e, s, c, 1); rev_off(4, e, s, c, 2); rev_off(4, e, s, c, 3);
  assert(1 * l == l && 1 * m == m);
  sub4(x, l, m, k, j);
  assert(k + l == l + k && k + 2 * l == 2 * l + k && k + 3 * l == 3 * l + k);
}
/// base-4 length of a power of two with an even exponent
pub proof fn bp_pow2(e: nat) ensures bp(2, e) == pow2(e) decreases e { if e > 0 { bp_pow2((e - 1) as nat); } }
pub proof fn bp4_pow2(e: nat) ensures bp(4, e) == pow2(2 * e) decreases e
{ if e > 0 { bp4_pow2((e - 1) as nat); assert(pow2((2 * e) as nat) == 2 * pow2((2 * e - 1) as nat)); assert(pow2((2 * e - 1) as nat) == 2 * pow2((2 * e - 2) as nat)); } }
/// positions lo..lo+cnt hold the next stage, lo+cnt..hi the current one
pub open spec fn part(x: Seq<C>, y: Seq<Complex>, b: int, e: nat, s: nat, lo: int, mid: int, hi: int) -> bool {
  (forall|p: int| lo <= p < mid ==> (#[trigger] y[p])@ == dt(x, b, e, s + 1, p)) && (forall|p: int| mid <= p < hi ==> (#[trigger] y[p])@ == dt(x, b, e, s, p)) }
