pub proof fn dct_roundtrip(x: Seq<R>, y: Seq<R>, i: int)
  requires is_dct2(x, y), 0 <= i < x.len()
  ensures dct3_at(y, i) == ((x.len() as real) / 2real) * x[i]@
{
  let n = x.len() as int;
  let xs = |j: int| x[j]@; let m = |j: int, k: int| cij(n, j, k); let h = |k: int| hw(k, 0);
  assert forall|j: int| 0 <= j < n implies #[trigger] rsum(gram(m, h, i, j), n) == (if i == j { (n as real) / 2real } else { 0real }) by {
    dct_ortho(n, i, j);
    rsum_ext(gram(m, h, i, j), |k: int| hw(k, 0) * (cij(n, j, k) * cij(n, i, k)), n);
  }
  ortho_sum(xs, m, h, n, i);
  let l = |k: int| h(k) * (rsum(|j: int| xs(j) * m(j, k), n) * m(i, k));
  let t = dct3_term(y, i);
  assert forall|k: int| 0 <= k < n implies #[trigger] t(k) == l(k) by {
    let a = |j: int| xs(j) * m(j, k); let b = dct2_term(x, k);
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by { theta_half(n, k, j); }
    rsum_ext(a, b, n);
    assert(y[k]@ == rsum(a, n));
    theta_half(n, k, i);
    let v = y[k]@;
    if k == 0 { w_0(4 * n); assert(0 * (2 * i + 1) == 0); assert(v * 1real == v); assert(v / 2real == (1real / 2real) * v) by(nonlinear_arith); }
    else { let z = v * m(i, k); assert(1real * z == z); }
  }
  rsum_ext(t, l, n);
}
