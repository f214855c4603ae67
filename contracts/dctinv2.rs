pub proof fn theta_half(n: int, k: int, j: int)
  requires n > 0
  ensures wang(4 * n, k * (2 * j + 1)) == (rpi() * (((j as real) + 1real / 2real) * (k as real))) / (n as real),
    wang(4 * n, k * (2 * j + 1)) == (rpi() * ((k as real) * ((j as real) + 1real / 2real))) / (n as real)
{
  let p = rpi(); let kk = k as real; let jj = j as real; let nn = n as real; let a = (k * (2 * j + 1)) as real; let d = (4 * n) as real;
  assert(d == 4real * nn);
  assert(a == kk * (2real * jj + 1real)) by { assert((k * (2 * j + 1)) as real == (k as real) * ((2 * j + 1) as real)) by(nonlinear_arith); };
  let u = (jj + 1real / 2real) * kk;
  assert(a == 2real * u) by(nonlinear_arith) requires a == kk * (2real * jj + 1real), u == (jj + 1real / 2real) * kk;
  assert((2real * p * a) / d == (p * u) / nn) by(nonlinear_arith) requires d == 4real * nn, nn > 0real, a == 2real * u;
  assert(kk * (jj + 1real / 2real) == u) by(nonlinear_arith) requires u == (jj + 1real / 2real) * kk;
}
pub open spec fn cij(n: int, j: int, k: int) -> real { W(4 * n, k * (2 * j + 1)).re }
pub proof fn cc(n: int, i: int, j: int, k: int)
  requires n > 0
  ensures 2real * (cij(n, j, k) * cij(n, i, k)) == crow(n, i + j + 1)(k) + crow(n, i - j)(k)
{
  let a = k * (2 * i + 1); let b = k * (2 * j + 1);
  wprod(4 * n, a, b);
  assert(a + b == (k * (i + j + 1)) * 2) by(nonlinear_arith) requires a == k * (2 * i + 1), b == k * (2 * j + 1);
  assert(a - b == (k * (i - j)) * 2) by(nonlinear_arith) requires a == k * (2 * i + 1), b == k * (2 * j + 1);
  w_scale(2 * n, 2, k * (i + j + 1)); w_scale(2 * n, 2, k * (i - j));
  assert(2 * n * 2 == 4 * n);
  let x = cij(n, i, k); let y = cij(n, j, k);
  assert(x * y == y * x) by(nonlinear_arith);
}
pub open spec fn hw(k: int, e: int) -> real { if k == e { 1real / 2real } else { 1real } }
/// the rows of DCT-II and the half-weighted DCT-III are orthogonal
pub proof fn dct_ortho(n: int, i: int, j: int)
  requires n > 0, 0 <= i < n, 0 <= j < n
  ensures rsum(|k: int| hw(k, 0) * (cij(n, j, k) * cij(n, i, k)), n) == (if i == j { (n as real) / 2real } else { 0real })
{
  let p = |k: int| cij(n, j, k) * cij(n, i, k);
  let hp = |k: int| hw(k, 0) * (cij(n, j, k) * cij(n, i, k));
  let d = |k: int| if k == 0 { -(1real / 2real) * p(0) } else { 0real };
  let s = |k: int| p(k) + d(k);
  assert forall|k: int| 0 <= k < n implies #[trigger] hp(k) == s(k) by {
    let v = p(k);
    assert((1real / 2real) * v == v + (-(1real / 2real)) * v) by(nonlinear_arith);
    assert(1real * v == v);
  }
  rsum_ext(hp, s, n); rsum_add(p, d, n); rsum_single(d, n, 0);
  let g1 = crow(n, i + j + 1); let g2 = crow(n, i - j);
  let pp = |k: int| 2real * p(k); let gg = |k: int| g1(k) + g2(k);
  assert forall|k: int| 0 <= k < n implies #[trigger] pp(k) == gg(k) by { cc(n, i, j, k); }
  rsum_ext(pp, gg, n); rsum_scale(p, 2real, n); rsum_add(g1, g2, n);
  crow_sum(n, i + j + 1); crow_sum(n, i - j); mod_small(n, i, j);
  w_0(4 * n); assert(0 * (2 * j + 1) == 0 && 0 * (2 * i + 1) == 0);
  assert(p(0) == 1real) by { assert(1real * 1real == 1real); }
  assert(d(0) == -(1real / 2real)) by { let v = p(0); assert(-(1real / 2real) * v == -(1real / 2real)) by(nonlinear_arith) requires v == 1real; }
  assert(rsum(hp, n) == rsum(p, n) + d(0));
  assert(2real * rsum(p, n) == rsum(g1, n) + rsum(g2, n));
  assert(4real * rsum(p, n) == 2real + (if i == j { 2real * (n as real) } else { 0real }));
  assert(rsum(hp, n) == (if i == j { (n as real) / 2real } else { 0real }));
}
/// shifting the index of a sum by one
pub proof fn rsum_shift(g: spec_fn(int) -> real, n: int)
  requires n >= 0
  ensures rsum(|k: int| g(k + 1), n) == rsum(g, n) - g(0) + g(n)
  decreases n
{ if n > 0 { rsum_shift(g, n - 1); } }
pub open spec fn sij(n: int, j: int, k: int) -> real { -W(4 * n, (k + 1) * (2 * j + 1)).im }
pub proof fn ss(n: int, i: int, j: int, k: int)
  requires n > 0
  ensures 2real * (sij(n, j, k) * sij(n, i, k)) == crow(n, i - j)(k + 1) - crow(n, i + j + 1)(k + 1)
{
  let a = (k + 1) * (2 * i + 1); let b = (k + 1) * (2 * j + 1);
  wprod(4 * n, a, b);
  assert(a + b == ((k + 1) * (i + j + 1)) * 2) by(nonlinear_arith) requires a == (k + 1) * (2 * i + 1), b == (k + 1) * (2 * j + 1);
  assert(a - b == ((k + 1) * (i - j)) * 2) by(nonlinear_arith) requires a == (k + 1) * (2 * i + 1), b == (k + 1) * (2 * j + 1);
  w_scale(2 * n, 2, (k + 1) * (i + j + 1)); w_scale(2 * n, 2, (k + 1) * (i - j));
  assert(2 * n * 2 == 4 * n);
  let x = W(4 * n, a).im; let y = W(4 * n, b).im;
  assert((-y) * (-x) == x * y) by(nonlinear_arith);
}
/// the rows of DST-II and the half-weighted DST-III are orthogonal
pub proof fn dst_ortho(n: int, i: int, j: int)
  requires n > 0, 0 <= i < n, 0 <= j < n
  ensures rsum(|k: int| hw(k, n - 1) * (sij(n, j, k) * sij(n, i, k)), n) == (if i == j { (n as real) / 2real } else { 0real })
{
  let p = |k: int| sij(n, j, k) * sij(n, i, k);
  let hp = |k: int| hw(k, n - 1) * (sij(n, j, k) * sij(n, i, k));
  let d = |k: int| if k == n - 1 { -(1real / 2real) * p(n - 1) } else { 0real };
  let s = |k: int| p(k) + d(k);
  assert forall|k: int| 0 <= k < n implies #[trigger] hp(k) == s(k) by {
    let v = p(k);
    assert((1real / 2real) * v == v + (-(1real / 2real)) * v) by(nonlinear_arith);
    assert(1real * v == v);
  }
  rsum_ext(hp, s, n); rsum_add(p, d, n); rsum_single(d, n, n - 1);
  let c1 = crow(n, i - j); let c2 = crow(n, i + j + 1);
  let g1 = |k: int| c1(k + 1); let g2 = |k: int| -1real * g3s(n, i, j)(k);
  let g3 = |k: int| c2(k + 1);
  let pp = |k: int| 2real * p(k); let gg = |k: int| g1(k) + g2(k);
  assert forall|k: int| 0 <= k < n implies #[trigger] pp(k) == gg(k) by { ss(n, i, j, k); let z = g3(k); assert(-1real * z == -z); }
  rsum_ext(pp, gg, n); rsum_scale(p, 2real, n); rsum_add(g1, g2, n); rsum_scale(g3s(n, i, j), -1real, n);
  rsum_ext(g3, g3s(n, i, j), n);
  rsum_shift(c1, n); rsum_shift(c2, n);
  crow_sum(n, i + j + 1); crow_sum(n, i - j); mod_small(n, i, j);
  w_0(2 * n); assert(0 * (i - j) == 0 && 0 * (i + j + 1) == 0);
  w_sgn(n, i - j); w_sgn(n, i + j + 1);
  ss(n, i, j, n - 1);
  let z = rsum(g3, n); assert(-1real * z == -z);
  assert(rsum(hp, n) == rsum(p, n) + d(n - 1));
  assert(2real * rsum(p, n) == rsum(g1, n) - rsum(g3, n));
  assert(2real * p(n - 1) == 2real * sgn(i - j));
  assert(d(n - 1) == -(1real / 2real) * sgn(i - j)) by { assert(p(n - 1) == sgn(i - j)); }
  assert(d(n - 1) == (if sgn(i - j) == 1real { -(1real / 2real) } else { 1real / 2real })) by { let v = sgn(i - j); if v == 1real { assert(-(1real / 2real) * v == -(1real / 2real)) by(nonlinear_arith) requires v == 1real; } else { assert(-(1real / 2real) * v == 1real / 2real) by(nonlinear_arith) requires v == -1real; } }
  assert(4real * rsum(p, n) == 2real * sgn(i - j) + (if i == j { 2real * (n as real) } else { 0real }));
  assert(rsum(hp, n) == (if i == j { (n as real) / 2real } else { 0real }));
}
pub open spec fn g3s(n: int, i: int, j: int) -> spec_fn(int) -> real { |k: int| crow(n, i + j + 1)(k + 1) }
/// a weighted inner product with rows whose Gram matrix is (n/2) times the identity picks out x[i]
pub proof fn ortho_sum(x: spec_fn(int) -> real, m: spec_fn(int, int) -> real, h: spec_fn(int) -> real, n: int, i: int)
  requires n > 0, 0 <= i < n,
    forall|j: int| 0 <= j < n ==> #[trigger] rsum(gram(m, h, i, j), n) == (if i == j { (n as real) / 2real } else { 0real })
  ensures rsum(|k: int| h(k) * (rsum(|j: int| x(j) * m(j, k), n) * m(i, k)), n) == ((n as real) / 2real) * x(i)
{
  let f = |k: int, j: int| (h(k) * m(i, k)) * (x(j) * m(j, k));
  let l0 = |k: int| h(k) * (rsum(|j: int| x(j) * m(j, k), n) * m(i, k));
  let l1 = |k: int| rsum(|j: int| f(k, j), n);
  assert forall|k: int| 0 <= k < n implies #[trigger] l0(k) == l1(k) by {
    let t = |j: int| x(j) * m(j, k); let c = h(k) * m(i, k);
    rsum_scale(t, c, n);
    rsum_ext(|j: int| c * t(j), |j: int| f(k, j), n);
    let s = rsum(t, n); let a = h(k); let b = m(i, k);
    assert(a * (s * b) == (a * b) * s) by(nonlinear_arith);
  }
  rsum_ext(l0, l1, n);
  rsum_swap(f, n, n);
  let r = |j: int| rsum(|k: int| f(k, j), n);
  assert forall|j: int| 0 <= j < n implies #[trigger] r(j) == (if i == j { ((n as real) / 2real) * x(i) } else { 0real }) by {
    let g = gram(m, h, i, j);
    rsum_scale(g, x(j), n);
    let u = |k: int| x(j) * g(k); let v = |k: int| f(k, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] u(k) == v(k) by {
      let (a, b, c, d) = (h(k), m(i, k), x(j), m(j, k));
      assert(c * (a * (d * b)) == (a * b) * (c * d)) by(nonlinear_arith);
    }
    rsum_ext(u, v, n);
    let (s, c) = (rsum(g, n), x(j));
    assert(c * s == s * c) by(nonlinear_arith); assert(0real * c == 0real);
  }
  rsum_single(r, n, i);
}
pub open spec fn gram(m: spec_fn(int, int) -> real, h: spec_fn(int) -> real, i: int, j: int) -> spec_fn(int) -> real { |k: int| h(k) * (m(j, k) * m(i, k)) }
