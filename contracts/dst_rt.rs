pub proof fn dst_roundtrip(x: Seq<R>, y: Seq<R>, i: int)
  requires is_dst2(x, y), 0 <= i < x.len()
  ensures dst3_at(y, i) == ((x.len() as real) / 2real) * x[i]@
{
  let n = x.len() as int;
  let xs = |j: int| x[j]@; let m = |j: int, k: int| sij(n, j, k); let h = |k: int| hw(k, n - 1);
  assert forall|j: int| 0 <= j < n implies #[trigger] rsum(gram(m, h, i, j), n) == (if i == j { (n as real) / 2real } else { 0real }) by {
    dst_ortho(n, i, j);
    rsum_ext(gram(m, h, i, j), |k: int| hw(k, n - 1) * (sij(n, j, k) * sij(n, i, k)), n);
  }
  ortho_sum(xs, m, h, n, i);
  let l = |k: int| h(k) * (rsum(|j: int| xs(j) * m(j, k), n) * m(i, k));
  let t = dst3_term(y, i);
  assert forall|k: int| 0 <= k < n implies #[trigger] t(k) == l(k) by {
    let a = |j: int| xs(j) * m(j, k); let b = dst2_term(x, k);
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by { theta_half(n, k + 1, j); }
    rsum_ext(a, b, n);
    assert(y[k]@ == rsum(a, n));
    theta_half(n, k + 1, i);
    assert((k + 1) as real == k as real + 1real);
    let (v, w) = (y[k]@, m(i, k));
    if k == n - 1 { assert((v / 2real) * w == (1real / 2real) * (v * w)) by(nonlinear_arith); }
    else { let z = v * w; assert(1real * z == z); }
  }
  rsum_ext(t, l, n);
}
