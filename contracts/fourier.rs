// ---- ghost finite complex sums, roots of unity, DFT --------------------------------
pub open spec fn csum(f: spec_fn(int) -> C, n: int) -> C decreases n { if n <= 0 { c0() } else { cadd(csum(f, n - 1), f(n - 1)) } }
pub proof fn csum_step(f: spec_fn(int) -> C, n: int) requires n >= 0 ensures csum(f, n + 1) == cadd(csum(f, n), f(n)) {}
pub proof fn csum_ext(f: spec_fn(int) -> C, g: spec_fn(int) -> C, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
  ensures csum(f, n) == csum(g, n)
  decreases n
{ if n > 0 { csum_ext(f, g, n - 1); } }
pub proof fn cadd_assoc(a: C, b: C, c: C) ensures cadd(cadd(a, b), c) == cadd(a, cadd(b, c)) {}
pub proof fn cadd_comm(a: C, b: C) ensures cadd(a, b) == cadd(b, a) {}
pub proof fn cadd_0(a: C) ensures cadd(a, c0()) == a, cadd(c0(), a) == a {}
pub proof fn rcomm(a: real, b: real) ensures a * b == b * a
{ assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn rneg(a: real, b: real) ensures a * (-b) == -(a * b), (-a) * b == -(a * b), (-a) * (-b) == a * b
{ assert(a * (-b) == -(a * b)) by(nonlinear_arith); assert((-a) * b == -(a * b)) by(nonlinear_arith); assert((-a) * (-b) == a * b) by(nonlinear_arith); }
pub proof fn cmul_comm(a: C, b: C) ensures cmul(a, b) == cmul(b, a)
{ rcomm(a.re, b.re); rcomm(a.im, b.im); rcomm(a.re, b.im); rcomm(a.im, b.re); }
pub proof fn rassoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c)
{ assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn rdist(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c, (a - b) * c == a * c - b * c, c * (a + b) == c * a + c * b, c * (a - b) == c * a - c * b
{
  assert((a + b) * c == a * c + b * c) by(nonlinear_arith); assert((a - b) * c == a * c - b * c) by(nonlinear_arith);
  assert(c * (a + b) == c * a + c * b) by(nonlinear_arith); assert(c * (a - b) == c * a - c * b) by(nonlinear_arith);
}
pub proof fn cmul_assoc(a: C, b: C, c: C) ensures cmul(cmul(a, b), c) == cmul(a, cmul(b, c))
{
  rdist(a.re * b.re, a.im * b.im, c.re); rdist(a.re * b.im, a.im * b.re, c.im);
  rdist(a.re * b.re, a.im * b.im, c.im); rdist(a.re * b.im, a.im * b.re, c.re);
  rdist(b.re * c.re, b.im * c.im, a.re); rdist(b.re * c.im, b.im * c.re, a.im);
  rdist(b.re * c.im, b.im * c.re, a.re); rdist(b.re * c.re, b.im * c.im, a.im);
  rassoc(a.re, b.re, c.re); rassoc(a.im, b.im, c.re); rassoc(a.re, b.im, c.im); rassoc(a.im, b.re, c.im);
  rassoc(a.re, b.re, c.im); rassoc(a.im, b.im, c.im); rassoc(a.re, b.im, c.re); rassoc(a.im, b.re, c.re);
}
pub proof fn cmul_dist(a: C, b: C, c: C) ensures cmul(cadd(a, b), c) == cadd(cmul(a, c), cmul(b, c)), cmul(c, cadd(a, b)) == cadd(cmul(c, a), cmul(c, b))
{
  rdist(a.re, b.re, c.re); rdist(a.im, b.im, c.im); rdist(a.re, b.re, c.im); rdist(a.im, b.im, c.re);
  cmul_comm(cadd(a, b), c); cmul_comm(a, c); cmul_comm(b, c);
}
pub proof fn cmul_1(a: C) ensures cmul(a, c1()) == a, cmul(c1(), a) == a
{ assert(a.re * 1real == a.re && a.im * 1real == a.im && a.re * 0real == 0real && a.im * 0real == 0real) by(nonlinear_arith);
  assert(1real * a.re == a.re && 1real * a.im == a.im && 0real * a.re == 0real && 0real * a.im == 0real) by(nonlinear_arith); }
pub proof fn cmul_0(a: C) ensures cmul(a, c0()) == c0(), cmul(c0(), a) == c0()
{ assert(a.re * 0real == 0real && a.im * 0real == 0real) by(nonlinear_arith);
  assert(0real * a.re == 0real && 0real * a.im == 0real) by(nonlinear_arith); }
pub proof fn cmul_neg(a: C, b: C) ensures cmul(a, cneg(b)) == cneg(cmul(a, b)), cmul(cneg(a), b) == cneg(cmul(a, b))
{
  rneg(a.re, b.re); rneg(a.im, b.im); rneg(a.re, b.im); rneg(a.im, b.re);
}
pub proof fn cconj_mul(a: C, b: C) ensures cconj(cmul(a, b)) == cmul(cconj(a), cconj(b))
{
  rneg(a.im, b.im); rneg(a.re, b.im); rneg(a.im, b.re);
}
pub proof fn csum_scale(f: spec_fn(int) -> C, c: C, n: int)
  ensures csum(|i: int| cmul(f(i), c), n) == cmul(csum(f, n), c)
  decreases n
{ if n > 0 { csum_scale(f, c, n - 1); cmul_dist(csum(f, n - 1), f(n - 1), c); } else { cmul_0(c); } }
pub proof fn csum_add(f: spec_fn(int) -> C, g: spec_fn(int) -> C, n: int)
  ensures csum(|i: int| cadd(f(i), g(i)), n) == cadd(csum(f, n), csum(g, n))
  decreases n
{ if n > 0 { csum_add(f, g, n - 1); } }
pub proof fn csum_conj(f: spec_fn(int) -> C, n: int)
  ensures csum(|i: int| cconj(f(i)), n) == cconj(csum(f, n))
  decreases n
{ if n > 0 { csum_conj(f, n - 1); } }
pub proof fn csum_zero(f: spec_fn(int) -> C, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == c0()
  ensures csum(f, n) == c0()
  decreases n
{ if n > 0 { csum_zero(f, n - 1); } }
/// even terms plus odd terms
pub proof fn csum_evenodd(f: spec_fn(int) -> C, n: int)
  requires n >= 0
  ensures csum(f, 2 * n) == cadd(csum(|i: int| f(2 * i), n), csum(|i: int| f(2 * i + 1), n))
  decreases n
{
  if n > 0 {
    csum_evenodd(f, n - 1);
    csum_step(f, 2 * n - 1); csum_step(f, 2 * n - 2);
    assert(2 * (n - 1) == 2 * n - 2); assert(2 * (n - 1) + 1 == 2 * n - 1);
    let e = |i: int| f(2 * i); let o = |i: int| f(2 * i + 1);
    assert(csum(e, n) == cadd(csum(e, n - 1), e(n - 1)));
    assert(csum(o, n) == cadd(csum(o, n - 1), o(n - 1)));
  }
}
pub proof fn csum_cat(f: spec_fn(int) -> C, m: int, n: int)
  requires m >= 0, n >= 0
  ensures csum(f, m + n) == cadd(csum(f, m), csum(|i: int| f(m + i), n))
  decreases n
{
  if n > 0 { csum_cat(f, m, n - 1); csum_step(f, m + n - 1);
    let g = |i: int| f(m + i); assert(csum(g, n) == cadd(csum(g, n - 1), g(n - 1))); }
  else { cadd_0(csum(f, m)); }
}

/// the k-th power of exp(-2*pi*i/n)
pub open spec fn wang(n: int, k: int) -> real { (2real * rpi() * (k as real)) / (n as real) }
pub open spec fn W(n: int, k: int) -> C { C { re: rcos(wang(n, k)), im: -rsin(wang(n, k)) } }
pub proof fn w_0(n: int) requires n != 0 ensures W(n, 0) == c1()
{ ax_zero(); assert(2real * rpi() * (0 as real) == 0real) by(nonlinear_arith); assert(0real / (n as real) == 0real) by(nonlinear_arith) requires n as real != 0real; }
pub proof fn w_add(n: int, a: int, b: int) requires n != 0 ensures W(n, a + b) == cmul(W(n, a), W(n, b))
{
  let x = wang(n, a); let y = wang(n, b);
  let c = 2real * rpi();
  assert((a + b) as real == (a as real) + (b as real));
  assert((c * ((a as real) + (b as real))) / (n as real) == (c * (a as real)) / (n as real) + (c * (b as real)) / (n as real)) by(nonlinear_arith) requires n as real != 0real;
  assert(wang(n, a + b) == x + y);
  ax_cos_add(x, y); ax_sin_add(x, y);
  let p = rcos(x); let q = rsin(x); let r = rcos(y); let s = rsin(y);
  assert(p * r - (-q) * (-s) == p * r - q * s) by(nonlinear_arith);
  assert(p * (-s) + (-q) * r == -(q * r + p * s)) by(nonlinear_arith);
}
pub proof fn w_half(m: int) requires m > 0 ensures W(2 * m, m) == cneg(c1())
{
  ax_pi();
  assert((2real * rpi() * (m as real)) / ((2 * m) as real) == rpi()) by {
    assert((2 * m) as real == 2real * (m as real));
    assert((2real * rpi() * (m as real)) / (2real * (m as real)) == rpi()) by(nonlinear_arith) requires m as real > 0real;
  }
}
pub proof fn w_n(n: int) requires n != 0 ensures W(n, n) == c1()
{
  ax_pi(); ax_cos_add(rpi(), rpi()); ax_sin_add(rpi(), rpi());
  assert((2real * rpi() * (n as real)) / (n as real) == rpi() + rpi()) by(nonlinear_arith) requires n as real != 0real;
  assert((-1real) * (-1real) - 0real * 0real == 1real) by(nonlinear_arith);
  assert(0real * (-1real) + (-1real) * 0real == 0real) by(nonlinear_arith);
}
pub proof fn w_shift_half(m: int, k: int) requires m > 0 ensures W(2 * m, k + m) == cneg(W(2 * m, k))
{ w_add(2 * m, k, m); w_half(m); cmul_neg(W(2 * m, k), c1()); cmul_1(W(2 * m, k)); }
pub proof fn w_shift(n: int, k: int) requires n != 0 ensures W(n, k + n) == W(n, k)
{ w_add(n, k, n); w_n(n); cmul_1(W(n, k)); }
pub proof fn w_period_pos(n: int, k: int, q: int) requires n != 0, q >= 0 ensures W(n, k + q * n) == W(n, k) decreases q
{ if q > 0 { w_period_pos(n, k, q - 1); w_shift(n, k + (q - 1) * n); assert(k + (q - 1) * n + n == k + q * n) by(nonlinear_arith); } else { assert(0 * n == 0); } }
pub proof fn w_period(n: int, k: int, q: int) requires n != 0 ensures W(n, k + q * n) == W(n, k)
{
  if q >= 0 { w_period_pos(n, k, q); }
  else { w_period_pos(n, k + q * n, -q); assert(k + q * n + (-q) * n == k) by(nonlinear_arith); }
}
pub proof fn w_scale(n: int, m: int, k: int) requires n != 0, m != 0 ensures W(n * m, k * m) == W(n, k)
{
  let c = 2real * rpi();
  assert((n * m) as real == (n as real) * (m as real)) by(nonlinear_arith);
  assert((k * m) as real == (k as real) * (m as real)) by(nonlinear_arith);
  assert((c * ((k as real) * (m as real))) / ((n as real) * (m as real)) == (c * (k as real)) / (n as real)) by(nonlinear_arith) requires n as real != 0real, m as real != 0real;
}
pub proof fn w_neg(n: int, k: int) requires n != 0 ensures W(n, -k) == cconj(W(n, k))
{
  let c = 2real * rpi();
  assert((c * ((-k) as real)) / (n as real) == -((c * (k as real)) / (n as real))) by(nonlinear_arith) requires n as real != 0real;
  ax_neg(wang(n, k));
}
/// n1-point DFT (bin k) of the samples x[j], x[j+m], x[j+2m], ...
pub open spec fn sub_term(x: Seq<C>, n1: int, m: int, k: int, j: int) -> spec_fn(int) -> C { |p: int| cmul(x[j + p * m], W(n1, k * p)) }
pub open spec fn sub_dft(x: Seq<C>, n1: int, m: int, k: int, j: int) -> C { csum(sub_term(x, n1, m, k, j), n1) }
/// bin k of the DFT of x
pub open spec fn dft(x: Seq<C>, k: int) -> C { sub_dft(x, x.len() as int, 1, k, 0) }
pub open spec fn is_dft(x: Seq<C>, y: Seq<C>) -> bool { y.len() == x.len() && forall|k: int| 0 <= k < x.len() ==> #[trigger] y[k] == dft(x, k) }
pub proof fn sub_one(x: Seq<C>, m: int, k: int, j: int) ensures sub_dft(x, 1, m, k, j) == x[j]
{
  let f = sub_term(x, 1, m, k, j);
  assert(0 * m == 0); assert(k * 0 == 0);
  w_0(1); cmul_1(x[j]); csum_step(f, 0); cadd_0(f(0));
}
/// the radix-2 decimation step
pub proof fn fft_step(x: Seq<C>, n1: int, m: int, k: int, j: int)
  requires n1 > 0
  ensures
    sub_dft(x, 2 * n1, m, k, j) == cadd(sub_dft(x, n1, 2 * m, k, j), cmul(sub_dft(x, n1, 2 * m, k, j + m), W(2 * n1, k))),
    sub_dft(x, 2 * n1, m, k + n1, j) == csub(sub_dft(x, n1, 2 * m, k, j), cmul(sub_dft(x, n1, 2 * m, k, j + m), W(2 * n1, k))),
{
  fft_step1(x, n1, m, k, j);
  fft_step1(x, n1, m, k + n1, j);
  w_shift_half(n1, k);
  cmul_neg(sub_dft(x, n1, 2 * m, k, j + m), W(2 * n1, k));
  sub_shift(x, n1, 2 * m, k, j); sub_shift(x, n1, 2 * m, k, j + m);
}
pub proof fn sub_shift(x: Seq<C>, n1: int, m: int, k: int, j: int)
  requires n1 > 0
  ensures sub_dft(x, n1, m, k + n1, j) == sub_dft(x, n1, m, k, j)
{
  let f = sub_term(x, n1, m, k + n1, j); let g = sub_term(x, n1, m, k, j);
  assert forall|p: int| 0 <= p < n1 implies #[trigger] f(p) == g(p) by {
    assert((k + n1) * p == k * p + p * n1) by(nonlinear_arith);
    w_period(n1, k * p, p);
  }
  csum_ext(f, g, n1);
}
pub proof fn fft_step1(x: Seq<C>, n1: int, m: int, k: int, j: int)
  requires n1 > 0
  ensures sub_dft(x, 2 * n1, m, k, j) == cadd(sub_dft(x, n1, 2 * m, k, j), cmul(sub_dft(x, n1, 2 * m, k, j + m), W(2 * n1, k)))
{
  let f = sub_term(x, 2 * n1, m, k, j);
  let e = sub_term(x, n1, 2 * m, k, j);
  let o = sub_term(x, n1, 2 * m, k, j + m);
  csum_evenodd(f, n1);
  let fe = |i: int| f(2 * i); let fo = |i: int| f(2 * i + 1);
  let os = |i: int| cmul(o(i), W(2 * n1, k));
  assert forall|p: int| 0 <= p < n1 implies #[trigger] fe(p) == e(p) by {
    assert((2 * p) * m == p * (2 * m)) by(nonlinear_arith);
    assert(k * (2 * p) == (k * p) * 2) by(nonlinear_arith);
    assert(2 * n1 == n1 * 2);
    w_scale(n1, 2, k * p);
  }
  assert forall|p: int| 0 <= p < n1 implies #[trigger] fo(p) == os(p) by {
    assert(j + (2 * p + 1) * m == j + m + p * (2 * m)) by(nonlinear_arith);
    assert(k * (2 * p + 1) == (k * p) * 2 + k) by(nonlinear_arith);
    assert(2 * n1 == n1 * 2);
    w_scale(n1, 2, k * p);
    w_add(2 * n1, (k * p) * 2, k);
    cmul_assoc(x[j + m + p * (2 * m)], W(n1, k * p), W(2 * n1, k));
  }
  csum_ext(fe, e, n1);
  csum_ext(fo, os, n1);
  csum_scale(o, W(2 * n1, k), n1);
}
pub proof fn w4_1() ensures W(4, 1) == (C { re: 0real, im: -1real })
{ ax_pi_2(); assert((2real * rpi() * (1 as real)) / (4 as real) == rpi() / 2real) by(nonlinear_arith); }
