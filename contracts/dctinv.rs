// ---- orthogonality of the cosine and sine rows --------------------------------------------
pub proof fn rsum_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
  ensures rsum(|i: int| f(i) + g(i), n) == rsum(f, n) + rsum(g, n)
  decreases n
{ if n > 0 { rsum_add(f, g, n - 1); } }
pub proof fn rsum_scale(f: spec_fn(int) -> real, c: real, n: int)
  ensures rsum(|i: int| c * f(i), n) == c * rsum(f, n)
  decreases n
{
  if n > 0 { rsum_scale(f, c, n - 1); let a = rsum(f, n - 1); let b = f(n - 1); assert(c * (a + b) == c * a + c * b) by(nonlinear_arith); }
  else { assert(c * 0real == 0real); }
}
pub proof fn rsum_zero(f: spec_fn(int) -> real, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real
  ensures rsum(f, n) == 0real
  decreases n
{ if n > 0 { rsum_zero(f, n - 1); } }
pub proof fn rsum_single(f: spec_fn(int) -> real, n: int, p: int)
  requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == 0real
  ensures rsum(f, n) == f(p)
  decreases n
{ if p == n - 1 { rsum_zero(f, n - 1); } else { rsum_single(f, n - 1, p); } }
pub proof fn rsum_swap(f: spec_fn(int, int) -> real, a: int, b: int)
  requires a >= 0, b >= 0
  ensures rsum(|i: int| rsum(|j: int| f(i, j), b), a) == rsum(|j: int| rsum(|i: int| f(i, j), a), b)
  decreases a
{
  let l = |i: int| rsum(|j: int| f(i, j), b);
  let r = |j: int| rsum(|i: int| f(i, j), a);
  if a == 0 {
    assert forall|j: int| 0 <= j < b implies #[trigger] r(j) == 0real by { }
    rsum_zero(r, b);
  } else {
    rsum_swap(f, a - 1, b);
    let r1 = |j: int| rsum(|i: int| f(i, j), a - 1);
    let last = |j: int| f(a - 1, j);
    rsum_add(r1, last, b);
    let s = |j: int| r1(j) + last(j);
    assert forall|j: int| 0 <= j < b implies #[trigger] r(j) == s(j) by {
      rsum_step(|i: int| f(i, j), a - 1);
    }
    rsum_ext(r, s, b);
    assert(l(a - 1) == rsum(last, b));
  }
}
/// cos(pi*k*m/n)
pub open spec fn crow(n: int, m: int) -> spec_fn(int) -> real { |k: int| W(2 * n, k * m).re }
pub open spec fn sgn(m: int) -> real { if m % 2 == 0 { 1real } else { -1real } }
pub proof fn w_sgn(n: int, m: int) requires n > 0 ensures W(2 * n, n * m).re == sgn(m)
{
  w_0(2 * n); w_half(n);
  let h = m / 2;
  if m % 2 == 0 { assert(n * m == 0 + h * (2 * n)) by(nonlinear_arith) requires m == 2 * h; w_period(2 * n, 0, h); }
  else { assert(n * m == n + h * (2 * n)) by(nonlinear_arith) requires m == 2 * h + 1; w_period(2 * n, n, h); }
}
/// the real part of a sum whose terms pair up: f(2n-1-i) is the conjugate of f(i+1)
pub proof fn csum_pair(f: spec_fn(int) -> C, g: spec_fn(int) -> real, n: int, k: int)
  requires n >= 0, 0 <= k <= n, forall|i: int| 0 <= i <= n ==> (#[trigger] f(i)).re == g(i),
    forall|i: int| n <= i < 2 * n ==> (#[trigger] f(i)).re == g(2 * n - i)
  ensures csum(f, n).re == rsum(g, n), csum(f, n + k).re == rsum(g, n) + (rsum(g, n) - rsum(g, n - k)) + g(n) - g(n - k)
  decreases n + k
{
  if k == 0 { csum_re1(f, g, n); } else {
    csum_pair(f, g, n, k - 1);
    csum_step(f, n + k - 1);
    let i = n + k - 1;
    assert(f(i).re == g(2 * n - i));
    assert(2 * n - i == n - k + 1);
    rsum_step(g, n - k);
  }
}
pub proof fn csum_re1(f: spec_fn(int) -> C, g: spec_fn(int) -> real, n: int)
  requires n >= 0, forall|i: int| 0 <= i < n ==> (#[trigger] f(i)).re == g(i)
  ensures csum(f, n).re == rsum(g, n)
  decreases n
{ if n > 0 { csum_re1(f, g, n - 1); } }
pub proof fn crow_sum(n: int, m: int)
  requires n > 0
  ensures 2real * rsum(crow(n, m), n) == (if m % (2 * n) == 0 { 2real * (n as real) } else { 0real }) + 1real - sgn(m)
{
  let f = geo_term(2 * n, m); let g = crow(n, m);
  geo(2 * n, m);
  assert forall|i: int| n <= i < 2 * n implies (#[trigger] f(i)).re == g(2 * n - i) by {
    let j = 2 * n - i;
    assert(i * m == -(j * m) + m * (2 * n)) by(nonlinear_arith) requires j == 2 * n - i;
    w_period(2 * n, -(j * m), m); w_neg(2 * n, j * m);
  }
  csum_pair(f, g, n, n);
  w_sgn(n, m); w_0(2 * n);
  assert(0 * m == 0);
  assert((2 * n) as real == 2real * (n as real));
}
pub proof fn wprod(n: int, a: int, b: int)
  requires n > 0
  ensures 2real * (W(n, a).re * W(n, b).re) == W(n, a + b).re + W(n, a - b).re,
    2real * (W(n, a).im * W(n, b).im) == W(n, a - b).re - W(n, a + b).re
{
  w_add(n, a, b); w_add(n, a, -b); w_neg(n, b);
  let x = W(n, a); let y = W(n, b);
  assert(x.im * (-y.im) == -(x.im * y.im)) by(nonlinear_arith);
}
pub proof fn mod_small(n: int, i: int, j: int)
  requires n > 0, 0 <= i < n, 0 <= j < n
  ensures (i - j) % (2 * n) == 0 <==> i == j, (i + j + 1) % (2 * n) != 0, sgn(i - j) == -sgn(i + j + 1)
{
  if i >= j { vstd::arithmetic::div_mod::lemma_small_mod((i - j) as nat, (2 * n) as nat); }
  else {
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i - j, 2 * n);
    vstd::arithmetic::div_mod::lemma_small_mod((2 * n + i - j) as nat, (2 * n) as nat); }
  vstd::arithmetic::div_mod::lemma_small_mod((i + j + 1) as nat, (2 * n) as nat);
}
