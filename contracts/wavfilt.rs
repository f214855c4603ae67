// ---- reflection at both ends (the end samples are not repeated)
pub open spec fn mirror(n: int, i: int) -> int { let m = i % (2 * (n - 1)); if m < n { m } else { 2 * (n - 1) - m } }
pub proof fn mirror_in(n: int, i: int) requires n >= 2, 0 <= i < n ensures mirror(n, i) == i { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, (2 * (n - 1)) as nat); }
pub proof fn mirror_range(n: int, i: int) requires n >= 2 ensures 0 <= mirror(n, i) < n { vstd::arithmetic::div_mod::lemma_mod_bound(i, 2 * (n - 1)); }
pub proof fn mirror_per(n: int, i: int) requires n >= 2 ensures mirror(n, 2 * (n - 1) + i) == mirror(n, i) { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, 2 * (n - 1)); }
pub proof fn mirror_neg(n: int, i: int) requires n >= 2 ensures mirror(n, -i) == mirror(n, i)
{
  let p = 2 * (n - 1); let m = i % p; let q = i / p;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, p);
  if m == 0 {
    assert(-i == p * (-q) + 0) by(nonlinear_arith) requires i == p * q + m, m == 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-i, p, -q, 0);
  } else {
    assert(-i == p * (-q - 1) + (p - m)) by(nonlinear_arith) requires i == p * q + m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-i, p, -q - 1, p - m);
  }
}
pub proof fn mirror_step(n: int, i: int) requires n >= 2 ensures mirror(n, -i) == mirror(n, i), mirror(n, 2 * (n - 1) - i) == mirror(n, i)
{ mirror_neg(n, i); mirror_per(n, -i); }
pub open spec fn taps(h: Seq<real>, x: Seq<R>, p: int) -> spec_fn(int) -> real { |k: int| h[k] * x[mirror(x.len() as int, p + k)]@ }
/// one output of the analysis filter h at position p of the reflected signal
pub open spec fn fir(h: Seq<real>, x: Seq<R>, p: int) -> real { rsum(taps(h, x, p), h.len() as int) }
#[verifier::opaque]
pub open spec fn analysed(h: Seq<real>, x: Seq<R>, a: Seq<R>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] a[i])@ == fir(h, x, 2 * i) }
pub open spec fn analysis(h: Seq<real>, g: Seq<real>, x: Seq<R>, a: Seq<R>, d: Seq<R>) -> bool {
  a.len() == x.len() / 2 && d.len() == x.len() / 2 && analysed(h, x, a, a.len() as int) && analysed(g, x, d, d.len() as int) }
/// what coefficient pair i adds to output sample t through tap k
pub open spec fn syn_tap(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, i: int, t: int) -> spec_fn(int) -> real {
  |k: int| if mirror(2 * a.len() as int, 2 * i + k) == t { h[k] * a[i]@ + g[k] * d[i]@ } else { 0real } }
pub open spec fn syn_part(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, i: int, k: int, t: int) -> real { rsum(syn_tap(h, g, a, d, i, t), k) }
pub open spec fn syn_term(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, t: int) -> spec_fn(int) -> real { |i: int| syn_part(h, g, a, d, i, h.len() as int, t) }
/// output sample t: sum over the coefficient pairs of the transposed filters
pub open spec fn syn(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, n: int, t: int) -> real { rsum(syn_term(h, g, a, d, t), n) }
#[verifier::opaque]
pub open spec fn syn_done(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y: Seq<R>, i: int, k: int) -> bool {
  y.len() == 2 * a.len() && forall|t: int| 0 <= t < y.len() ==> (#[trigger] y[t])@ == syn(h, g, a, d, i, t) + syn_part(h, g, a, d, i, k, t) }
pub open spec fn synthesis(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y: Seq<R>) -> bool {
  y.len() == 2 * a.len() && forall|t: int| 0 <= t < y.len() ==> (#[trigger] y[t])@ == syn(h, g, a, d, a.len() as int, t) }
pub proof fn ana_0(h: Seq<real>, x: Seq<R>, a: Seq<R>) ensures analysed(h, x, a, 0) { reveal(analysed); }
pub proof fn ana_step(h: Seq<real>, x: Seq<R>, a0: Seq<R>, a: Seq<R>, i: int)
  requires analysed(h, x, a0, i), 0 <= i < a0.len(), a.len() == a0.len(), forall|j: int| 0 <= j < i ==> #[trigger] a[j] == a0[j], a[i]@ == fir(h, x, 2 * i)
  ensures analysed(h, x, a, i + 1)
{ reveal(analysed); assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] a[j])@ == fir(h, x, 2 * j) by { if j < i { assert(a[j] == a0[j]); assert(a0[j]@ == fir(h, x, 2 * j)); } } }
pub proof fn syn_start(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y: Seq<R>)
  requires y.len() == 2 * a.len(), forall|t: int| 0 <= t < y.len() ==> (#[trigger] y[t])@ == 0real
  ensures syn_done(h, g, a, d, y, 0, 0)
{ reveal(syn_done); assert forall|t: int| 0 <= t < y.len() implies (#[trigger] y[t])@ == syn(h, g, a, d, 0, t) + syn_part(h, g, a, d, 0, 0, t) by {} }
pub proof fn syn_step(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y0: Seq<R>, y: Seq<R>, i: int, k: int, s: int)
  requires syn_done(h, g, a, d, y0, i, k), k >= 0, s == mirror(2 * a.len() as int, 2 * i + k), 0 <= s < y0.len(), y.len() == y0.len(), y[s]@ == y0[s]@ + (h[k] * a[i]@ + g[k] * d[i]@),
    forall|t: int| 0 <= t < y.len() && t != s ==> #[trigger] y[t] == y0[t]
  ensures syn_done(h, g, a, d, y, i, k + 1)
{
  reveal(syn_done);
  assert forall|t: int| 0 <= t < y.len() implies (#[trigger] y[t])@ == syn(h, g, a, d, i, t) + syn_part(h, g, a, d, i, k + 1, t) by {
    rsum_step(syn_tap(h, g, a, d, i, t), k); assert(y0[t]@ == syn(h, g, a, d, i, t) + syn_part(h, g, a, d, i, k, t));
  }
}
pub proof fn syn_next(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y: Seq<R>, i: int)
  requires syn_done(h, g, a, d, y, i, h.len() as int), i >= 0
  ensures syn_done(h, g, a, d, y, i + 1, 0)
{
  reveal(syn_done);
  assert forall|t: int| 0 <= t < y.len() implies (#[trigger] y[t])@ == syn(h, g, a, d, i + 1, t) + syn_part(h, g, a, d, i + 1, 0, t) by {
    rsum_step(syn_term(h, g, a, d, t), i); assert(y[t]@ == syn(h, g, a, d, i, t) + syn_part(h, g, a, d, i, h.len() as int, t));
  }
}
pub proof fn syn_end(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, y: Seq<R>)
  requires syn_done(h, g, a, d, y, a.len() as int, 0)
  ensures synthesis(h, g, a, d, y)
{ reveal(syn_done); assert forall|t: int| 0 <= t < y.len() implies (#[trigger] y[t])@ == syn(h, g, a, d, a.len() as int, t) by { assert(y[t]@ == syn(h, g, a, d, a.len() as int, t) + syn_part(h, g, a, d, a.len() as int, 0, t)); } }
pub open spec fn small(x: int) -> bool { x <= 0x1000_0000_0000_0000 }
// ---- reconstruction away from the ends
pub proof fn rsum_none(f: spec_fn(int) -> real, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real
  ensures rsum(f, n) == 0real
  decreases n
{ if n > 0 { rsum_none(f, n - 1); } }
pub proof fn rsum_only(f: spec_fn(int) -> real, n: int, p: int)
  requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == 0real
  ensures rsum(f, n) == f(p)
  decreases n
{ if p == n - 1 { rsum_none(f, n - 1); } else { rsum_only(f, n - 1, p); } }
/// a sum whose terms vanish outside (hi - c, hi], taken from the top
pub proof fn rsum_window(f: spec_fn(int) -> real, n: int, hi: int, c: int)
  requires 0 <= hi < n, 0 <= c <= hi + 1, forall|i: int| 0 <= i < n && !(hi - c < i <= hi) ==> #[trigger] f(i) == 0real
  ensures rsum(f, n) == rsum(|j: int| f(hi - j), c)
  decreases n
{
  let g = |j: int| f(hi - j);
  if hi < n - 1 { rsum_window(f, n - 1, hi, c); }
  else if c == 0 { rsum_none(f, n); }
  else {
    // peel f(hi) off the front of both sums
    let g1 = |j: int| f(hi - 1 - j);
    if hi == 0 { assert(c == 1); assert(rsum(f, 1) == rsum(f, 0) + f(0)); assert(rsum(g, 1) == rsum(g, 0) + g(0)); }
    else {
      let f1 = |i: int| if i == hi { 0real } else { f(i) };
      rsum_ext(f, f1, n - 1);
      rsum_window(f, n - 1, hi - 1, c - 1);
      rsum_front(g, c);
      let g2 = |j: int| g(j + 1);
      rsum_ext(g1, g2, c - 1);
    }
  }
}
pub proof fn rsum_front(g: spec_fn(int) -> real, c: int)
  requires c >= 1
  ensures rsum(g, c) == g(0) + rsum(|j: int| g(j + 1), c - 1)
  decreases c
{ let g1 = |j: int| g(j + 1); if c > 1 { rsum_front(g, c - 1); rsum_step(g1, c - 2); } else { assert(rsum(g, 1) == rsum(g, 0) + g(0)); } }
pub open spec fn fir_in(h: Seq<real>, x: Seq<R>, p: int) -> spec_fn(int) -> real { |k: int| h[k] * x[p + k]@ }
pub proof fn fir_interior(h: Seq<real>, x: Seq<R>, p: int)
  requires 0 <= p, p + h.len() <= x.len(), x.len() >= 2
  ensures fir(h, x, p) == rsum(fir_in(h, x, p), h.len() as int)
{ assert forall|k: int| 0 <= k < h.len() implies #[trigger] taps(h, x, p)(k) == fir_in(h, x, p)(k) by { mirror_in(x.len() as int, p + k); } rsum_ext(taps(h, x, p), fir_in(h, x, p), h.len() as int); }
pub open spec fn syn_in(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, t: int) -> spec_fn(int) -> real {
  |j: int| h[t % 2 + 2 * j] * a[t / 2 - j]@ + g[t % 2 + 2 * j] * d[t / 2 - j]@ }
pub proof fn syn_interior(h: Seq<real>, g: Seq<real>, a: Seq<R>, d: Seq<R>, t: int)
  requires h.len() % 2 == 0, h.len() >= 2, h.len() <= t < 2 * a.len() - h.len()
  ensures syn(h, g, a, d, a.len() as int, t) == rsum(syn_in(h, g, a, d, t), h.len() as int / 2)
{
  let n = a.len() as int; let len = 2 * n; let l = h.len() as int; let q = t / 2; let p = t % 2;
  let f = syn_term(h, g, a, d, t);
  assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == (if q - l / 2 < i <= q { syn_in(h, g, a, d, t)(q - i) } else { 0real }) by {
    let e = syn_tap(h, g, a, d, i, t);
    assert forall|k: int| 0 <= k < l implies #[trigger] e(k) == (if 2 * i + k == t { h[k] * a[i]@ + g[k] * d[i]@ } else { 0real }) by {
      let z = 2 * i + k;
      if z < len { mirror_in(len, z); } else { mirror_step(len, z); mirror_in(len, 2 * (len - 1) - z); }
    }
    if q - l / 2 < i <= q { rsum_only(e, l, t - 2 * i); } else { rsum_none(e, l); }
  }
  rsum_window(f, n, q, l / 2);
  let w = |j: int| f(q - j);
  rsum_ext(w, syn_in(h, g, a, d, t), l / 2);
}
pub proof fn scale_mul(s: real, h: real, n: real, x: real) requires s * h == n ensures s * (h * x) == n * x
{ assert(s * (h * x) == (s * h) * x) by(nonlinear_arith); }
pub open spec fn absum(x: Seq<R>, t: int) -> spec_fn(int) -> real { |j: int| rabs(x[t + j]@) }
pub proof fn scale_sum1(s: real, y: real, u0: real, v0: real) requires y == (u0 + v0) ensures s * y == s * u0 + s * v0 { assert(s * y == s * u0 + s * v0) by(nonlinear_arith) requires y == (u0 + v0); }
pub proof fn scale_sum2(s: real, y: real, u0: real, v0: real, u1: real, v1: real) requires y == (u0 + v0) + (u1 + v1) ensures s * y == s * u0 + s * v0 + s * u1 + s * v1 { assert(s * y == s * u0 + s * v0 + s * u1 + s * v1) by(nonlinear_arith) requires y == (u0 + v0) + (u1 + v1); }
pub proof fn scale_sum3(s: real, y: real, u0: real, v0: real, u1: real, v1: real, u2: real, v2: real) requires y == (u0 + v0) + (u1 + v1) + (u2 + v2) ensures s * y == s * u0 + s * v0 + s * u1 + s * v1 + s * u2 + s * v2 { assert(s * y == s * u0 + s * v0 + s * u1 + s * v1 + s * u2 + s * v2) by(nonlinear_arith) requires y == (u0 + v0) + (u1 + v1) + (u2 + v2); }
pub proof fn scale_sum4(s: real, y: real, u0: real, v0: real, u1: real, v1: real, u2: real, v2: real, u3: real, v3: real) requires y == (u0 + v0) + (u1 + v1) + (u2 + v2) + (u3 + v3) ensures s * y == s * u0 + s * v0 + s * u1 + s * v1 + s * u2 + s * v2 + s * u3 + s * v3 { assert(s * y == s * u0 + s * v0 + s * u1 + s * v1 + s * u2 + s * v2 + s * u3 + s * v3) by(nonlinear_arith) requires y == (u0 + v0) + (u1 + v1) + (u2 + v2) + (u3 + v3); }
