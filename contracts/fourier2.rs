// ---- inversion and convolution ------------------------------------------------------
pub axiom fn ax_cos_lt_1(x: real) requires 0real < x, x < 2real * rpi() ensures rcos(x) < 1real;
pub proof fn csum_swap(f: spec_fn(int, int) -> C, a: int, b: int)
  requires a >= 0, b >= 0
  ensures csum(|i: int| csum(|j: int| f(i, j), b), a) == csum(|j: int| csum(|i: int| f(i, j), a), b)
  decreases a
{
  let row = |i: int| csum(|j: int| f(i, j), b);
  if a == 0 {
    let g = |j: int| csum(|i: int| f(i, j), a);
    assert forall|j: int| 0 <= j < b implies #[trigger] g(j) == c0() by {}
    csum_zero(g, b);
  } else {
    csum_swap(f, a - 1, b);
    let p = |j: int| csum(|i: int| f(i, j), a - 1);
    let q = |j: int| f(a - 1, j);
    csum_add(p, q, b);
    let l = |j: int| csum(|i: int| f(i, j), a);
    let s = |j: int| cadd(p(j), q(j));
    assert forall|j: int| 0 <= j < b implies #[trigger] l(j) == s(j) by { csum_step(|i: int| f(i, j), a - 1); }
    csum_ext(l, s, b);
    csum_step(row, a - 1);
    assert(row(a - 1) == csum(q, b));
  }
}
pub proof fn csum_scale_l(f: spec_fn(int) -> C, c: C, n: int)
  ensures csum(|i: int| cmul(c, f(i)), n) == cmul(c, csum(f, n))
{
  csum_scale(f, c, n); cmul_comm(csum(f, n), c);
  let g = |i: int| cmul(c, f(i)); let h = |i: int| cmul(f(i), c);
  assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == h(i) by { cmul_comm(c, f(i)); }
  csum_ext(g, h, n);
}
pub open spec fn creal(r: real) -> C { C { re: r, im: 0real } }
pub open spec fn geo_term(n: int, q: int) -> spec_fn(int) -> C { |k: int| W(n, k * q) }
pub proof fn geo_partial(n: int, q: int, m: int)
  requires n > 0, m >= 0
  ensures cmul(csum(geo_term(n, q), m), csub(W(n, q), c1())) == csub(W(n, m * q), c1())
  decreases m
{
  let f = geo_term(n, q); let d = csub(W(n, q), c1());
  if m == 0 { cmul_0(d); assert(0 * q == 0); w_0(n); }
  else {
    geo_partial(n, q, m - 1);
    csum_step(f, m - 1);
    cmul_dist(csum(f, m - 1), f(m - 1), d);
    w_add(n, (m - 1) * q, q); assert((m - 1) * q + q == m * q) by(nonlinear_arith);
    let w = W(n, (m - 1) * q);
    cmul_dist(W(n, q), cneg(c1()), w); cmul_neg(w, c1()); cmul_1(w);
    assert(cadd(W(n, q), cneg(c1())) == d);
    assert(cmul(w, d) == csub(W(n, m * q), w));
  }
}
pub proof fn csum_ones(f: spec_fn(int) -> C, n: int)
  requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == c1()
  ensures csum(f, n) == creal(n as real)
  decreases n
{ if n > 0 { csum_ones(f, n - 1); assert((n - 1) as real + 1real == n as real); } }
/// orthogonality of the roots of unity
pub proof fn geo(n: int, q: int)
  requires n > 0
  ensures q % n == 0 ==> csum(geo_term(n, q), n) == creal(n as real), q % n != 0 ==> csum(geo_term(n, q), n) == c0()
{
  let f = geo_term(n, q);
  let r = q % n; let d = q / n;
  assert(q == r + d * n) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n); assert(n * d == d * n) by(nonlinear_arith); }
  w_period(n, r, d);
  if r == 0 {
    w_0(n);
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == c1() by {
      assert(k * q == 0 + (k * d) * n) by(nonlinear_arith) requires q == d * n;
      w_period(n, 0, k * d);
    }
    csum_ones(f, n);
  } else {
    geo_partial(n, q, n);
    assert(n * q == 0 + q * n) by(nonlinear_arith); w_period(n, 0, q); w_0(n);
    let t = wang(n, r);
    ax_pi_pos();
    let p2 = 2real * rpi();
    let rr = r as real; let nn = n as real;
    assert(0real < (p2 * rr) / nn && (p2 * rr) / nn < p2) by(nonlinear_arith) requires 0real < rr, rr < nn, p2 > 0real;
    ax_cos_lt_1(t);
    let s = csum(f, n); let z = csub(W(n, q), c1());
    // s * z == 0 and z.re != 0
    let (a, b, c, e) = (s.re, s.im, z.re, z.im);
    assert(a * c - b * e == 0real && a * e + b * c == 0real);
    assert(a == 0real && b == 0real) by(nonlinear_arith) requires a * c - b * e == 0real, a * e + b * c == 0real, c < 0real {
      // (a*c - b*e)*a + (a*e + b*c)*b == c*(a*a + b*b)
      assert((a * c - b * e) * a + (a * e + b * c) * b == c * (a * a + b * b));
      assert((a * c - b * e) * a == 0real);
      assert((a * e + b * c) * b == 0real);
      assert(a * a + b * b == 0real);
      assert(a * a >= 0real); assert(b * b >= 0real);
    }
  }
}
/// sample t of the inverse DFT of y
pub open spec fn idft_term(y: Seq<C>, t: int) -> spec_fn(int) -> C { |k: int| cmul(y[k], W(y.len() as int, -(k * t))) }
pub open spec fn idft(y: Seq<C>, t: int) -> C { cscale(csum(idft_term(y, t), y.len() as int), 1real / (y.len() as real)) }
pub open spec fn is_idft(y: Seq<C>, x: Seq<C>) -> bool { x.len() == y.len() && forall|t: int| 0 <= t < y.len() ==> #[trigger] x[t] == idft(y, t) }
pub proof fn csum_single(f: spec_fn(int) -> C, n: int, p: int)
  requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == c0()
  ensures csum(f, n) == f(p)
  decreases n
{
  if p == n - 1 { csum_zero(f, n - 1); cadd_0(f(p)); } else { csum_single(f, n - 1, p); cadd_0(f(p)); }
}
pub proof fn cscale_creal(a: C, n: real) requires n != 0real ensures cscale(cmul(a, creal(n)), 1real / n) == a
{
  let (x, y) = (a.re, a.im);
  assert((x * n - y * 0real) * (1real / n) == x && (x * 0real + y * n) * (1real / n) == y) by(nonlinear_arith) requires n != 0real;
}
/// the transform determines its input: inverse DFT of the DFT
pub proof fn inversion(x: Seq<C>, y: Seq<C>, t: int)
  requires x.len() > 0, is_dft(x, y)
  ensures idft(y, t) == x[t % (x.len() as int)]
{
  let n = x.len() as int;
  let h = |k: int, j: int| cmul(cmul(x[j], W(n, k * j)), W(n, -(k * t)));
  let f = idft_term(y, t);
  let r = |k: int| csum(|j: int| h(k, j), n);
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == r(k) by {
    let g = sub_term(x, n, 1, k, 0);
    let g2 = |j: int| cmul(x[j], W(n, k * j));
    assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == g2(j) by { assert(j * 1 == j); }
    csum_ext(g, g2, n);
    csum_scale(g2, W(n, -(k * t)), n);
    let h1 = |j: int| h(k, j); let h2 = |j: int| cmul(g2(j), W(n, -(k * t)));
    assert forall|j: int| 0 <= j < n implies #[trigger] h1(j) == h2(j) by {}
    csum_ext(h1, h2, n);
  }
  csum_ext(f, r, n);
  csum_swap(h, n, n);
  let p = t % n; let d = t / n;
  assert(t == p + d * n) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, n); assert(n * d == d * n) by(nonlinear_arith); }
  let c = |j: int| csum(|k: int| h(k, j), n);
  assert forall|j: int| 0 <= j < n implies #[trigger] c(j) == (if j == p { cmul(x[p], creal(n as real)) } else { c0() }) by {
    let e = geo_term(n, j - t);
    let hj = |k: int| h(k, j);
    let s = |k: int| cmul(x[j], e(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] hj(k) == s(k) by {
      cmul_assoc(x[j], W(n, k * j), W(n, -(k * t)));
      assert(k * j + (-(k * t)) == k * (j - t)) by(nonlinear_arith);
      w_add(n, k * j, -(k * t));
    }
    csum_ext(hj, s, n);
    csum_scale_l(e, x[j], n);
    geo(n, j - t);
    cmul_0(x[j]);
    let q = j - t; let jp = j - p;
    if j == p {
      assert(q == (-d) * n) by(nonlinear_arith) requires q == j - t, j == p, t == p + d * n;
      vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-d, n);
    } else {
      if q % n == 0 {
        let z = q / n;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n);
        assert(jp == (z + d) * n) by(nonlinear_arith) requires q == n * z + 0, q == j - t, t == p + d * n, jp == j - p;
        assert(z + d == 0) by(nonlinear_arith) requires jp == (z + d) * n, -n < jp, jp < n, n > 0;
        assert(jp == 0) by(nonlinear_arith) requires jp == (z + d) * n, z + d == 0;
      }
    }
  }
  csum_single(c, n, p);
  cscale_creal(x[p], n as real);
}
/// the other direction: the DFT of the inverse DFT
pub proof fn inversion2(y: Seq<C>, x: Seq<C>, k: int)
  requires y.len() > 0, is_idft(y, x), 0 <= k < y.len()
  ensures dft(x, k) == y[k]
{
  let n = y.len() as int;
  let s = 1real / (n as real);
  let g = sub_term(x, n, 1, k, 0);
  let h = |t: int, j: int| cmul(cmul(y[j], W(n, -(j * t))), W(n, k * t));
  let r = |t: int| csum(|j: int| h(t, j), n);
  let rs = |t: int| cmul(r(t), creal(s));
  assert forall|t: int| 0 <= t < n implies #[trigger] g(t) == rs(t) by {
    assert(t * 1 == t);
    let f = idft_term(y, t);
    let c = csum(f, n);
    csum_scale(f, W(n, k * t), n);
    let h1 = |j: int| h(t, j); let h2 = |j: int| cmul(f(j), W(n, k * t));
    assert forall|j: int| 0 <= j < n implies #[trigger] h1(j) == h2(j) by {}
    csum_ext(h1, h2, n);
    cscale_cmul(c, s);
    let w = W(n, k * t);
    cmul_assoc(c, creal(s), w); cmul_comm(creal(s), w); cmul_assoc(c, w, creal(s));
  }
  csum_ext(g, rs, n);
  csum_scale(r, creal(s), n);
  csum_swap(h, n, n);
  let c = |j: int| csum(|t: int| h(t, j), n);
  assert forall|j: int| 0 <= j < n implies #[trigger] c(j) == (if j == k { cmul(y[k], creal(n as real)) } else { c0() }) by {
    let e = geo_term(n, k - j);
    let hj = |t: int| h(t, j);
    let s2 = |t: int| cmul(y[j], e(t));
    assert forall|t: int| 0 <= t < n implies #[trigger] hj(t) == s2(t) by {
      cmul_assoc(y[j], W(n, -(j * t)), W(n, k * t));
      assert(-(j * t) + k * t == t * (k - j)) by(nonlinear_arith);
      w_add(n, -(j * t), k * t);
    }
    csum_ext(hj, s2, n);
    csum_scale_l(e, y[j], n);
    geo(n, k - j);
    cmul_0(y[j]);
    if j != k { if (k - j) % n == 0 {
      let q = k - j; let z = q / n;
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, n);
      assert(z == 0) by(nonlinear_arith) requires q == n * z + 0, -n < q, q < n, n > 0;
      assert(q == 0) by(nonlinear_arith) requires q == n * z + 0, z == 0;
    } } else { assert(0int % n == 0); }
  }
  csum_single(c, n, k);
  cscale_creal(y[k], n as real); cscale_cmul(cmul(y[k], creal(n as real)), s);
}
pub proof fn cscale_cmul(a: C, s: real) ensures cscale(a, s) == cmul(a, creal(s))
{ let (x, y) = (a.re, a.im); assert(x * s - y * 0real == x * s && x * 0real + y * s == y * s) by(nonlinear_arith); }
/// circular convolution
pub open spec fn conv_term(a: Seq<C>, b: Seq<C>, t: int) -> spec_fn(int) -> C { |j: int| cmul(a[j], b[(t - j) % (b.len() as int)]) }
pub open spec fn cprod(a: Seq<C>, b: Seq<C>) -> Seq<C> { Seq::new(a.len(), |i: int| cmul(a[i], b[i])) }
pub proof fn convolution(a: Seq<C>, b: Seq<C>, fa: Seq<C>, fb: Seq<C>, t: int)
  requires a.len() > 0, b.len() == a.len(), is_dft(a, fa), is_dft(b, fb)
  ensures idft(cprod(fa, fb), t) == csum(conv_term(a, b, t), a.len() as int)
{
  let n = a.len() as int; let s = 1real / (n as real);
  let y = cprod(fa, fb);
  let f = idft_term(y, t);
  let h = |k: int, j: int| cmul(a[j], cmul(fb[k], W(n, -(k * (t - j)))));
  let r = |k: int| csum(|j: int| h(k, j), n);
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == r(k) by {
    let g = sub_term(a, n, 1, k, 0);
    let v = cmul(fb[k], W(n, -(k * t)));
    csum_scale(g, v, n);
    cmul_assoc(fa[k], fb[k], W(n, -(k * t)));
    let h1 = |j: int| h(k, j); let h2 = |j: int| cmul(g(j), v);
    assert forall|j: int| 0 <= j < n implies #[trigger] h1(j) == h2(j) by {
      assert(j * 1 == j);
      let w1 = W(n, k * j); let w2 = W(n, -(k * t));
      assert(k * j + (-(k * t)) == -(k * (t - j))) by(nonlinear_arith);
      w_add(n, k * j, -(k * t));
      // (a w1) (fb w2) == a (fb (w1 w2))
      cmul_assoc(a[j], w1, v); cmul_assoc(w1, fb[k], w2); cmul_comm(w1, fb[k]); cmul_assoc(fb[k], w1, w2);
    }
    csum_ext(h1, h2, n);
  }
  csum_ext(f, r, n);
  csum_swap(h, n, n);
  let c = |j: int| csum(|k: int| h(k, j), n);
  let o = conv_term(a, b, t);
  let os = |j: int| cmul(o(j), creal(n as real));
  assert forall|j: int| 0 <= j < n implies #[trigger] c(j) == os(j) by {
    let e = idft_term(fb, t - j);
    let hj = |k: int| h(k, j); let s2 = |k: int| cmul(a[j], e(k));
    assert forall|k: int| 0 <= k < n implies #[trigger] hj(k) == s2(k) by {}
    csum_ext(hj, s2, n);
    csum_scale_l(e, a[j], n);
    inversion(b, fb, t - j);
    let se = csum(e, n);
    // idft(fb, t-j) == cscale(se, s) == b[..]  ->  se == b * n
    cscale_inv(se, n as real);
    let bb = b[(t - j) % n];
    assert(se == cmul(bb, creal(n as real)));
    cmul_assoc(a[j], bb, creal(n as real));
  }
  csum_ext(c, os, n);
  csum_scale(o, creal(n as real), n);
  cscale_creal(csum(o, n), n as real);
}
pub proof fn cscale_inv(a: C, n: real) requires n != 0real ensures cmul(cscale(a, 1real / n), creal(n)) == a
{
  let (x, y) = (a.re, a.im);
  assert((x * (1real / n)) * n - (y * (1real / n)) * 0real == x && (x * (1real / n)) * 0real + (y * (1real / n)) * n == y) by(nonlinear_arith) requires n != 0real;
}
/// conj, forward transform, conj, divide by n is the inverse transform
pub open spec fn conjseq(x: Seq<C>) -> Seq<C> { Seq::new(x.len(), |i: int| cconj(x[i])) }
pub proof fn conj_trick(x: Seq<C>, t: int)
  requires x.len() > 0
  ensures cconj(dft(conjseq(x), t)) == csum(idft_term(x, t), x.len() as int),
    cscale(cconj(dft(conjseq(x), t)), 1real / (x.len() as real)) == idft(x, t)
{
  let n = x.len() as int;
  let g = sub_term(conjseq(x), n, 1, t, 0);
  let f = idft_term(x, t);
  csum_conj(g, n);
  let gc = |k: int| cconj(g(k));
  assert forall|k: int| 0 <= k < n implies #[trigger] gc(k) == f(k) by {
    assert(k * 1 == k);
    cconj_mul(conjseq(x)[k], W(n, t * k));
    w_neg(n, t * k);
    assert(-(t * k) == -(k * t)) by(nonlinear_arith);
  }
  csum_ext(gc, f, n);
}
// ---- Bluestein ------------------------------------------------------------------------
/// exp(-pi*i*q/n) with q = i*i
pub open spec fn chirp_at(n: int, i: int) -> C { W(2 * n, i * i) }
pub open spec fn is_chirp(n: int, c: Seq<C>) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] c[i] == chirp_at(n, i) }
/// conjugate chirp, wrapped around modulo m
pub open spec fn wrap_at(n: int, m: int, i: int) -> C {
  if 0 <= i < n { cconj(chirp_at(n, i)) } else if m - n < i < m { cconj(chirp_at(n, m - i)) } else { c0() } }
pub open spec fn is_wrap(n: int, b: Seq<C>) -> bool { b.len() >= 2 * n - 1 && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == wrap_at(n, b.len() as int, i) }
pub open spec fn is_bluestein(n: int, chirp: Seq<C>, fb: Seq<C>) -> bool {
  fb.len() < 4 * n && is_chirp(n, chirp) && is_pow2(fb.len() as int) && exists|b: Seq<C>| #[trigger] is_wrap(n, b) && is_dft(b, fb) }
pub open spec fn padchirp(x: Seq<C>, c: Seq<C>, m: int) -> Seq<C> { Seq::new(m as nat, |i: int| if i < x.len() { cmul(x[i], c[i]) } else { c0() }) }
pub proof fn bluestein(x: Seq<C>, c: Seq<C>, b: Seq<C>, fa: Seq<C>, fb: Seq<C>, k: int)
  requires x.len() > 0, is_chirp(x.len() as int, c), is_wrap(x.len() as int, b), is_dft(b, fb), is_dft(padchirp(x, c, b.len() as int), fa), 0 <= k < x.len()
  ensures cmul(idft(cprod(fa, fb), k), c[k]) == dft(x, k)
{
  let n = x.len() as int; let m = b.len() as int;
  let a = padchirp(x, c, m);
  convolution(a, b, fa, fb, k);
  let o = conv_term(a, b, k);
  csum_cat(o, n, m - n);
  let tail = |i: int| o(n + i);
  assert forall|i: int| 0 <= i < m - n implies #[trigger] tail(i) == c0() by { cmul_0(b[(k - (n + i)) % m]); }
  csum_zero(tail, m - n);
  cadd_0(csum(o, n));
  csum_scale(o, c[k], n);
  let os = |j: int| cmul(o(j), c[k]);
  let g = sub_term(x, n, 1, k, 0);
  assert forall|j: int| 0 <= j < n implies #[trigger] os(j) == g(j) by {
    assert(j * 1 == j);
    let d = k - j;
    let idx = d % m;
    if d >= 0 { vstd::arithmetic::div_mod::lemma_small_mod(d as nat, m as nat); }
    else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(d, m); vstd::arithmetic::div_mod::lemma_small_mod((d + m) as nat, m as nat); }
    assert(idx == if d >= 0 { d } else { m + d });
    let cd = W(2 * n, d * d);
    assert((-d) * (-d) == d * d) by(nonlinear_arith);
    assert(b[idx] == cconj(cd));
    w_neg(2 * n, d * d);
    // x[j] W(j*j) * W(-d*d) * W(k*k) == x[j] W(2 k j)
    let (wj, wd, wk) = (W(2 * n, j * j), W(2 * n, -(d * d)), W(2 * n, k * k));
    cmul_assoc(x[j], wj, wd); cmul_assoc(x[j], cmul(wj, wd), wk);
    w_add(2 * n, j * j, -(d * d)); w_add(2 * n, j * j + (-(d * d)), k * k);
    assert(j * j + (-(d * d)) + k * k == (k * j) * 2) by(nonlinear_arith) requires d == k - j;
    assert(2 * n == n * 2);
    w_scale(n, 2, k * j);
  }
  csum_ext(os, g, n);
}
