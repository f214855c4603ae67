// ---- real signals: half-length packing ---------------------------------------------------
pub open spec fn rz(x: Seq<real>) -> Seq<C> { Seq::new(x.len(), |i: int| creal(x[i])) }
/// sample i of the packed half-length signal: x[2i] + i*x[2i+1]
pub open spec fn pack(x: Seq<real>) -> Seq<C> { Seq::new(x.len() / 2, |i: int| C { re: x[2 * i], im: x[2 * i + 1] }) }
/// Y holds bins 0..n/2 of the DFT of the real signal x
pub open spec fn is_half(x: Seq<real>, y: Seq<C>) -> bool { y.len() == x.len() / 2 + 1 && forall|k: int| 0 <= k < y.len() ==> #[trigger] y[k] == dft(rz(x), k) }
pub open spec fn is_rtable(m: int, t: Seq<Complex>) -> bool { t.len() == m && forall|k: int| 0 <= k < m ==> (#[trigger] t[k])@ == W(2 * m, k) }
pub open spec fn ev(x: Seq<real>, k: int) -> C { sub_dft(rz(x), x.len() as int / 2, 2, k, 0) }
pub open spec fn od(x: Seq<real>, k: int) -> C { sub_dft(rz(x), x.len() as int / 2, 2, k, 1) }
/// multiplication by i
pub open spec fn ci(a: C) -> C { C { re: -a.im, im: a.re } }
/// recombination of two packed bins
pub open spec fn rec_fwd(a: C, b: C, w: C) -> C { let t = cmul(w, csub(a, b)); cscale(cadd(cadd(a, b), C { re: t.im, im: -t.re }), 1real / 2real) }
pub open spec fn rec_inv(a: C, b: C, w: C) -> C { let t = cmul(w, csub(a, b)); cscale(csub(cadd(a, b), C { re: t.im, im: -t.re }), 1real / 2real) }
pub proof fn sub_real(x: Seq<real>, n1: int, m: int, k: int, j: int)
  requires n1 > 0, forall|p: int| 0 <= p < n1 ==> 0 <= #[trigger] (j + p * m) < x.len()
  ensures sub_dft(rz(x), n1, m, n1 - k, j) == cconj(sub_dft(rz(x), n1, m, k, j))
{
  let f = sub_term(rz(x), n1, m, k, j); let g = sub_term(rz(x), n1, m, n1 - k, j);
  csum_conj(f, n1);
  let h = |p: int| cconj(f(p));
  assert forall|p: int| 0 <= p < n1 implies #[trigger] g(p) == h(p) by {
    assert((n1 - k) * p == -(k * p) + p * n1) by(nonlinear_arith);
    w_period(n1, -(k * p), p); w_neg(n1, k * p);
    let z = rz(x)[j + p * m];
    assert(cconj(z) == z);
    cconj_mul(z, W(n1, k * p));
  }
  csum_ext(g, h, n1);
}
pub proof fn evod_real(x: Seq<real>, k: int)
  requires x.len() > 0, x.len() % 2 == 0
  ensures ({ let m = x.len() as int / 2; ev(x, m - k) == cconj(ev(x, k)) && od(x, m - k) == cconj(od(x, k)) })
{ let m = x.len() as int / 2; sub_real(x, m, 2, k, 0); sub_real(x, m, 2, k, 1); }
pub proof fn evod_zero(x: Seq<real>)
  requires x.len() > 0, x.len() % 2 == 0
  ensures ev(x, 0).im == 0real, od(x, 0).im == 0real
{ let m = x.len() as int / 2; evod_real(x, 0); sub_shift(rz(x), m, 2, 0, 0); sub_shift(rz(x), m, 2, 0, 1); }
pub proof fn pack_dft(x: Seq<real>, k: int)
  requires x.len() > 0, x.len() % 2 == 0
  ensures dft(pack(x), k) == cadd(ev(x, k), ci(od(x, k)))
{
  let m = x.len() as int / 2;
  let f = sub_term(pack(x), m, 1, k, 0);
  let e = sub_term(rz(x), m, 2, k, 0); let o = sub_term(rz(x), m, 2, k, 1);
  let i1 = C { re: 0real, im: 1real };
  let os = |p: int| cmul(o(p), i1);
  let s = |p: int| cadd(e(p), os(p));
  assert forall|p: int| 0 <= p < m implies #[trigger] f(p) == s(p) by {
    let w = W(m, k * p); let a = x[2 * p]; let b = x[2 * p + 1];
    assert(0 + p * 1 == p); assert(0 + p * 2 == 2 * p); assert(1 + p * 2 == 2 * p + 1);
    assert(e(p) == cmul(creal(a), w)); assert(o(p) == cmul(creal(b), w));
    ci_mul(cmul(creal(b), w)); pack_term(a, b, w);
  }
  csum_ext(f, s, m); csum_add(e, os, m); csum_scale(o, i1, m); ci_mul(csum(o, m));
}
pub proof fn ci_mul(a: C) ensures cmul(a, C { re: 0real, im: 1real }) == ci(a)
{ assert(a.re * 0real == 0real && a.im * 1real == a.im && a.re * 1real == a.re && a.im * 0real == 0real) by(nonlinear_arith); }
pub proof fn pack_term(a: real, b: real, w: C) ensures cmul(C { re: a, im: b }, w) == cadd(cmul(creal(a), w), ci(cmul(creal(b), w)))
{ assert(0real * w.im == 0real && 0real * w.re == 0real) by(nonlinear_arith); }
pub proof fn half_bins(x: Seq<real>, k: int)
  requires x.len() > 0, x.len() % 2 == 0
  ensures ({ let m = x.len() as int / 2; let w = W(2 * m, k);
    dft(rz(x), k) == cadd(ev(x, k), cmul(od(x, k), w)) && dft(rz(x), k + m) == csub(ev(x, k), cmul(od(x, k), w)) })
{ let m = x.len() as int / 2; assert(2 * m == x.len()); fft_step(rz(x), m, 1, k, 0); }
/// bins 0 and n/2
pub proof fn ends_fwd(x: Seq<real>, z: Seq<C>)
  requires x.len() > 0, x.len() % 2 == 0, is_dft(pack(x), z)
  ensures dft(rz(x), 0) == creal(z[0].re + z[0].im), dft(rz(x), x.len() as int / 2) == creal(z[0].re - z[0].im)
{ let m = x.len() as int / 2; evod_zero(x); pack_dft(x, 0); half_bins(x, 0); w_0(2 * m); cmul_1(od(x, 0)); }
pub proof fn lin_fwd(e: C, o: C, w: C) ensures rec_fwd(cadd(e, ci(o)), cconj(cadd(cconj(e), ci(cconj(o)))), w) == cadd(e, cmul(o, w))
{
  let a = cadd(e, ci(o)); let b = cconj(cadd(cconj(e), ci(cconj(o))));
  assert(csub(a, b).re == -2real * o.im); assert(csub(a, b).im == 2real * o.re);
  let d = csub(a, b);
  assert(w.re * d.re == -2real * (o.im * w.re)) by(nonlinear_arith) requires d.re == -2real * o.im;
  assert(w.im * d.im == 2real * (o.re * w.im)) by(nonlinear_arith) requires d.im == 2real * o.re;
  assert(w.re * d.im == 2real * (o.re * w.re)) by(nonlinear_arith) requires d.im == 2real * o.re;
  assert(w.im * d.re == -2real * (o.im * w.im)) by(nonlinear_arith) requires d.re == -2real * o.im;
  assert(cadd(a, b) == (C { re: 2real * e.re, im: 2real * e.im }));
}
pub proof fn bin_fwd(x: Seq<real>, z: Seq<C>, k: int)
  requires x.len() > 0, x.len() % 2 == 0, is_dft(pack(x), z), 1 <= k < x.len() as int / 2
  ensures dft(rz(x), k) == rec_fwd(z[k], cconj(z[x.len() as int / 2 - k]), W(x.len() as int, k))
{ let m = x.len() as int / 2; assert(2 * m == x.len()); pack_dft(x, k); pack_dft(x, m - k); evod_real(x, k); half_bins(x, k); lin_fwd(ev(x, k), od(x, k), W(2 * m, k)); }
pub proof fn lin_inv(e: C, o: C, w: C)
  requires cmul(w, cconj(w)) == c1()
  ensures rec_inv(cadd(e, cmul(o, w)), csub(e, cmul(o, w)), cconj(w)) == cadd(e, ci(o))
{
  let v = cmul(o, w);
  cmul_comm(cconj(w), v); cmul_assoc(o, w, cconj(w)); cmul_1(o);
  let d = csub(cadd(e, v), csub(e, v));
  assert(d == cadd(v, v));
  cmul_dist(v, v, cconj(w)); cmul_comm(cconj(w), d);
  assert(cmul(cconj(w), d) == cadd(o, o));
  assert(cadd(cadd(e, v), csub(e, v)) == cadd(e, e));
}
pub proof fn bin_inv(x: Seq<real>, y: Seq<C>, k: int)
  requires x.len() > 0, x.len() % 2 == 0, is_half(x, y), 1 <= k < x.len() as int / 2
  ensures dft(pack(x), k) == rec_inv(y[k], cconj(y[x.len() as int / 2 - k]), cconj(W(x.len() as int, k)))
{
  let m = x.len() as int / 2; assert(2 * m == x.len());
  pack_dft(x, k); half_bins(x, k); half_bins(x, m - k); evod_real(x, k);
  let (e, o, w) = (ev(x, k), od(x, k), W(2 * m, k)); let u = W(2 * m, m - k);
  // conj(e* + o* u) == e + o conj(u), conj(u) == -w
  cconj_mul(cconj(o), u);
  w_neg(2 * m, m - k); w_shift_half(m, k - m); assert(-(m - k) == k - m); assert(k - m + m == k);
  cmul_neg(o, w);
  assert(cconj(u) == W(2 * m, k - m)); assert(w == cneg(W(2 * m, k - m)));
  assert(cconj(u) == cneg(w));
  assert(cconj(cadd(cconj(e), cmul(cconj(o), u))) == csub(e, cmul(o, w)));
  w_neg(2 * m, k); w_add(2 * m, k, -k); w_0(2 * m); assert(k + (-k) == 0);
  lin_inv(e, o, w);
}
pub proof fn ends_inv(x: Seq<real>, y: Seq<C>)
  requires x.len() > 0, x.len() % 2 == 0, is_half(x, y)
  ensures ({ let m = x.len() as int / 2; dft(pack(x), 0) == (C { re: (y[0].re + y[m].re) * (1real / 2real), im: (y[0].re - y[m].re) * (1real / 2real) }) })
{ let m = x.len() as int / 2; evod_zero(x); pack_dft(x, 0); half_bins(x, 0); w_0(2 * m); cmul_1(od(x, 0)); }
pub proof fn unpack(x: Seq<real>, z: Seq<C>, p: Seq<C>)
  requires x.len() > 0, x.len() % 2 == 0, is_dft(pack(x), z), is_idft(z, p)
  ensures p == pack(x)
{
  let m = x.len() as int / 2;
  assert forall|i: int| 0 <= i < m implies #[trigger] p[i] == pack(x)[i] by { inversion(pack(x), z, i); vstd::arithmetic::div_mod::lemma_small_mod(i as nat, m as nat); }
  assert(p =~= pack(x));
}
